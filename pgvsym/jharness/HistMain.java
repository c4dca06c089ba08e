package pgvsym;
import java.io.*;
/** Replays: one line "harness n v..." per history; answers "1", or "0 what failed". */
public final class HistMain {
  public static void main(String[] a) throws Exception {
    BufferedReader br = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
    for (String line = br.readLine(); line != null; line = br.readLine()) {
      String[] t = line.split(" ");
      Sym.vals = new int[t.length - 2];
      Sym.pos = 0;
      for (int i = 0; i < Sym.vals.length; i++) Sym.vals[i] = Integer.parseInt(t[i + 2]);
      try {
        run(t[0], Integer.parseInt(t[1]));
        System.out.println("1");
      } catch (Sym.Failure e) {
        System.out.println("0 " + e.getMessage());
      } catch (Throwable e) {
        System.out.println("0 throws " + e.toString().replace('\n', ' '));
      }
    }
  }
  static void run(String h, int n) throws Exception {
    switch (h) {
      case "explicit": HistIndex.explicit(n); break;
      case "reflective": HistIndex.reflective(n); break;
      case "server": HistGrpc.server(n); break;
      case "client": HistGrpc.client(n); break;
      default: throw new Exception(h);
    }
  }
}
