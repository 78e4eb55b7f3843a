import java.io.BufferedWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.nio.file.StandardOpenOption;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Emit!WriteLine: appends a line to the file named by the environment variable EMIT. */
public class Emit {
    private static BufferedWriter out;

    public static synchronized Value WriteLine(Value s) throws Exception {
        if (out == null) {
            out = Files.newBufferedWriter(Paths.get(System.getenv("EMIT")), StandardCharsets.UTF_8,
                    StandardOpenOption.CREATE, StandardOpenOption.APPEND);
            Runtime.getRuntime().addShutdownHook(new Thread(Emit::close));
        }
        out.write(((StringValue) s).val.toString());
        out.newLine();
        return BoolValue.ValTrue;
    }

    private static synchronized void close() {
        try {
            out.close();
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    }
}
