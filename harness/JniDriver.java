// Conformance driver of the Android binding: performs the calls of sessions through
// xyz.omkar.tokenizers.Tokenizer and records what each returned.  Strings are given and
// recorded as their UTF-16 code units.
//
//   java JniDriver REQUESTS RESULTS START
import com.google.gson.JsonArray;
import com.google.gson.JsonElement;
import com.google.gson.JsonNull;
import com.google.gson.JsonObject;
import com.google.gson.JsonParser;
import java.io.FileWriter;
import java.io.Writer;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.CountDownLatch;
import xyz.omkar.tokenizers.Tokenizer;

public class JniDriver {
  static volatile long deadline = Long.MAX_VALUE;

  static String string(JsonElement e) {
    if (e == null || e.isJsonNull()) return null;
    StringBuilder s = new StringBuilder();
    for (JsonElement x : e.getAsJsonArray()) s.append((char) x.getAsInt());
    return s.toString();
  }

  static int[] ints(JsonElement e) {
    if (e == null || e.isJsonNull()) return null;
    JsonArray a = e.getAsJsonArray();
    int[] r = new int[a.size()];
    for (int i = 0; i < r.length; i++) r[i] = a.get(i).getAsInt();
    return r;
  }

  static JsonElement call(List<Tokenizer> toks, JsonObject c) throws Exception {
    String op = c.get("op").getAsString();
    if (op.equals("jnew")) {
      toks.add(new Tokenizer(string(c.get("u"))));
      return JsonParser.parseString("" + toks.size());
    }
    if (op.equals("jpar")) return parallel(toks, c);
    Tokenizer t = toks.get(c.get("k").getAsInt() - 1);
    JsonArray out = new JsonArray();
    if (op.equals("jenc")) {
      int[] r = t.encode(string(c.get("u")), c.get("special").getAsBoolean());
      if (r == null) return JsonNull.INSTANCE;
      for (int x : r) out.add(x);
      java.util.Arrays.fill(r, -7); // the array is the caller's
      return out;
    }
    if (op.equals("jdec")) {
      int[] ids = ints(c.get("ids")), before = ids == null ? null : ids.clone();
      String r = t.decode(ids, c.get("skip").getAsBoolean());
      if (ids != null && !java.util.Arrays.equals(ids, before)) throw new Error("decode wrote to its argument");
      if (r == null) return JsonNull.INSTANCE;
      for (int i = 0; i < r.length(); i++) out.add((int) r.charAt(i));
      return out;
    }
    throw new Error("driver: unknown call " + op);
  }

  static JsonObject result(List<Tokenizer> toks, JsonObject c) {
    JsonObject r = new JsonObject();
    try {
      JsonElement v = call(toks, c);
      r.addProperty("ok", true);
      r.add("v", v);
    } catch (Exception e) {
      r = new JsonObject();
      r.addProperty("ok", false);
      r.addProperty("t", e.getClass().getName());
    } catch (Throwable e) {
      r = new JsonObject();
      r.addProperty("crash", e.toString());
    }
    return r;
  }

  static JsonElement parallel(List<Tokenizer> toks, JsonObject c) throws Exception {
    JsonArray lists = c.getAsJsonArray("threads");
    int rounds = c.get("rounds").getAsInt();
    JsonArray[] out = new JsonArray[lists.size()];
    Thread[] ts = new Thread[lists.size()];
    CountDownLatch ready = new CountDownLatch(ts.length);
    for (int i = 0; i < ts.length; i++) {
      final int k = i;
      out[i] = new JsonArray();
      ts[i] = new Thread(() -> {
        ready.countDown();
        try {
          ready.await();
        } catch (InterruptedException e) {
        }
        for (int r = 0; r < rounds; r++)
          for (JsonElement x : lists.get(k).getAsJsonArray()) out[k].add(result(toks, x.getAsJsonObject()));
      });
    }
    for (Thread t : ts) t.start();
    for (Thread t : ts) t.join();
    JsonArray r = new JsonArray();
    for (JsonArray a : out) r.add(a);
    return r;
  }

  public static void main(String[] args) throws Exception {
    List<String> sessions = Files.readAllLines(Path.of(args[0]));
    Thread watch = new Thread(() -> {
      while (true) {
        if (System.currentTimeMillis() > deadline) Runtime.getRuntime().halt(14);
        try {
          Thread.sleep(200);
        } catch (InterruptedException e) {
        }
      }
    });
    watch.setDaemon(true);
    watch.start();
    try (Writer w = new FileWriter(args[1], true)) {
      for (int s = Integer.parseInt(args[2]); s < sessions.size(); s++) {
        List<Tokenizer> toks = new ArrayList<>();
        int n = 0;
        for (JsonElement e : JsonParser.parseString(sessions.get(s)).getAsJsonArray()) {
          deadline = System.currentTimeMillis() + 60000;
          JsonObject r = result(toks, e.getAsJsonObject());
          deadline = Long.MAX_VALUE;
          JsonObject line = new JsonObject();
          line.addProperty("s", s);
          line.addProperty("c", n++);
          line.add("out", r);
          w.write(line + "\n");
          w.flush();
        }
      }
    }
    Runtime.getRuntime().halt(0);
  }
}
