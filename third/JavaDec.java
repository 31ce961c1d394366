// C21: decode every file of a corpus with the JDK's reader (libjpeg 6b, raw components) and compare with the
// intervals of the .ref files. Output: MISMATCH name text | SUMMARY files pixels files-outside-its-limits
import java.awt.image.Raster;
import java.io.*;
import java.nio.ByteBuffer;
import java.nio.file.*;
import java.util.*;
import javax.imageio.*;
import javax.imageio.event.IIOReadWarningListener;
import javax.imageio.stream.ImageInputStream;

public class JavaDec {
    public static void main(String[] a) throws Exception {
        System.setProperty("java.awt.headless", "true");
        ImageIO.setUseCache(false);
        File[] l = new File(a[0]).listFiles((d, n) -> n.endsWith(".jpg"));
        Arrays.sort(l);
        int files = 0;
        long pixels = 0;
        int outside = 0;
        final List<String> warn = new ArrayList<>();
        for (File f : l) {
            String name = f.getName().replace(".jpg", "");
            ByteBuffer b = ByteBuffer.wrap(Files.readAllBytes(new File(f.getParent(), name + ".ref").toPath()));
            b.getInt();
            int w = b.getInt(), h = b.getInt(), n = b.getInt(), kind = b.getInt();
            // JPEG_MAX_DIMENSION of libjpeg
            if (w > 65500 || h > 65500) {
                outside++;
                continue;
            }
            byte[] lo = new byte[w * h * n], hi = new byte[w * h * n];
            b.get(lo);
            b.get(hi);
            String err = null;
            warn.clear();
            ImageReader r = ImageIO.getImageReadersByFormatName("jpeg").next();
            r.addIIOReadWarningListener((s, t) -> warn.add(t));
            try (ImageInputStream in = ImageIO.createImageInputStream(new ByteArrayInputStream(Files.readAllBytes(f.toPath())))) {
                r.setInput(in, false, true);
                if (r.getWidth(0) != w || r.getHeight(0) != h) {
                    err = "size " + r.getWidth(0) + "x" + r.getHeight(0) + ", requested " + w + "x" + h;
                } else {
                    Raster s = r.readRaster(0, null);
                    if (s.getNumBands() != n) {
                        err = s.getNumBands() + " components, expected " + n;
                    } else {
                        int[] row = new int[w * n];
                        outer:
                        for (int y = 0; y < h; y++) {
                            s.getPixels(0, y, w, 1, row);
                            for (int i = 0; i < w * n; i++) {
                                int k = y * w * n + i;
                                if (row[i] < (lo[k] & 255) || row[i] > (hi[k] & 255)) {
                                    err = "pixel (" + i / n + "," + y + ") channel " + i % n + " decodes to " + row[i] + ", expected " + (lo[k] & 255) + ".." + (hi[k] & 255);
                                    break outer;
                                }
                            }
                        }
                    }
                }
            } catch (Exception e) {
                err = "refused: " + e;
            }
            r.dispose();
            for (String t : warn) {
                if (!t.contains("profile") && !t.contains("ICC") && !t.contains("JFIF") && !t.contains("APP")) {
                    err = err == null ? "warning: " + t : err;
                }
            }
            if (err != null) {
                System.out.println("MISMATCH\t" + name + "\t" + err);
            } else {
                files++;
                pixels += (long) w * h;
            }
        }
        System.out.println("SUMMARY\t" + files + "\t" + pixels + "\t" + outside);
    }
}
