import tlc2.value.impl.*;
import java.io.*;
import java.nio.charset.StandardCharsets;

/** Override of module Out: Line(s) appends a line to the file named by the environment variable OUT. */
public class Out {
  private static Writer w;
  public static synchronized Value Line(Value v) {
    try {
      if (w == null) {
        w = new OutputStreamWriter(new FileOutputStream(System.getenv("OUT"), false), StandardCharsets.UTF_8);
      }
      w.write(((StringValue) v).val.toString());
      w.write('\n');
      w.flush();
    } catch (IOException e) {
      throw new RuntimeException(e);
    }
    return BoolValue.ValTrue;
  }
}
