import java.io.FileOutputStream;
import java.nio.charset.StandardCharsets;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** TLC override of LineOut.tla: appends one line, whole, whichever worker calls it. */
public class LineOut {
    private static FileOutputStream out;

    public static synchronized Value EmitLine(final StringValue line) throws Exception {
        if (out == null) {
            out = new FileOutputStream(System.getenv("OUT"), true);
        }
        out.write((line.val.toString() + "\n").getBytes(StandardCharsets.UTF_8));
        return BoolValue.ValTrue;
    }
}
