import com.hbuf.java.Data;
import com.hbuf.java.Server;
import java.io.*;
import java.lang.reflect.*;
import java.math.*;
import java.net.URI;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.CompletableFuture;
import javax.tools.*;

/** Compiles and exercises generated Java: one JSON request per line, one JSON answer per line. */
public class Driver {
	static final JavaCompiler javac = ToolProvider.getSystemJavaCompiler();
	static final Map<Integer, Loader> units = new HashMap<>();
	static StandardJavaFileManager std;

	public static void main(String[] a) throws Exception {
		std = javac.getStandardFileManager(null, Locale.ENGLISH, StandardCharsets.UTF_8);
		std.setLocation(StandardLocation.CLASS_PATH, List.of(new File(a[0])));
		BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
		PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
		System.setOut(System.err);
		for (String l; (l = in.readLine()) != null; ) {
			Object r;
			try {
				r = handle(Json.map(Json.parse(l)));
			} catch (Throwable e) {
				r = Map.of("fatal", text(e));
			}
			StringBuilder b = new StringBuilder();
			Json.write(b, r);
			out.print(b.append('\n'));
			out.flush();
		}
	}

	static String text(Throwable e) {
		StringWriter w = new StringWriter();
		e.printStackTrace(new PrintWriter(w));
		String s = w.toString();
		return s.length() > 1500 ? s.substring(0, 1500) : s;
	}

	static Object handle(Map<String, Object> q) throws Exception {
		if (q.get("cmd").equals("compile")) {
			units.clear();
			Map<String, Object> o = new HashMap<>();
			for (Object u : (List<?>) q.get("units")) {
				Map<String, Object> m = Json.map(u);
				o.put(m.get("n").toString(), compile(((Number) m.get("n")).intValue(), Json.map(m.get("files"))));
			}
			return Map.of("diags", o);
		}
		Loader l = units.get(((Number) q.get("unit")).intValue());
		List<Object> o = new ArrayList<>();
		for (Object op : (List<?>) q.get("ops")) {
			try {
				o.add(new Ops(l, Json.map(op)).run());
			} catch (Throwable e) {
				o.add(Map.of("panic", text(e)));
			}
		}
		return o;
	}

	static class Src extends SimpleJavaFileObject {
		final String text;

		Src(String path, String text) {
			super(URI.create("mem:///" + path.replace(" ", "%20")), Kind.SOURCE);
			this.text = text;
		}

		public CharSequence getCharContent(boolean b) {
			return text;
		}
	}

	static class Bin extends SimpleJavaFileObject {
		final ByteArrayOutputStream b = new ByteArrayOutputStream();

		Bin(String name) {
			super(URI.create("mem:///" + name), Kind.CLASS);
		}

		public OutputStream openOutputStream() {
			return b;
		}
	}

	static class Loader extends ClassLoader {
		final Map<String, Bin> bins = new HashMap<>();

		Loader() {
			super(Driver.class.getClassLoader());
		}

		protected Class<?> findClass(String n) throws ClassNotFoundException {
			Bin b = bins.get(n);
			if (b == null) throw new ClassNotFoundException(n);
			byte[] x = b.b.toByteArray();
			return defineClass(n, x, 0, x.length);
		}
	}

	static List<String> compile(int n, Map<String, Object> files) throws Exception {
		Loader l = new Loader();
		units.put(n, l);
		List<Src> srcs = new ArrayList<>();
		for (Map.Entry<String, Object> e : files.entrySet()) srcs.add(new Src(e.getKey(), (String) e.getValue()));
		DiagnosticCollector<JavaFileObject> dc = new DiagnosticCollector<>();
		JavaFileManager fm = new ForwardingJavaFileManager<>(std) {
			public JavaFileObject getJavaFileForOutput(Location loc, String name, JavaFileObject.Kind k, FileObject s) {
				Bin b = new Bin(name);
				l.bins.put(name, b);
				return b;
			}
		};
		List<String> out = new ArrayList<>();
		if (srcs.isEmpty()) return out;
		boolean ok = javac.getTask(null, fm, dc, List.of("-proc:none", "-nowarn", "-Xlint:none", "--release", "11", "-encoding", "UTF-8").subList(0, 3), null, srcs).call();
		for (Diagnostic<? extends JavaFileObject> d : dc.getDiagnostics())
			if (d.getKind() == Diagnostic.Kind.ERROR) {
				String line = "";
				if (d.getSource() != null) {
					String[] ls = ((Src) d.getSource()).text.split("\n", -1);
					if (d.getLineNumber() > 0 && d.getLineNumber() <= ls.length) line = "\n    " + ls[(int) d.getLineNumber() - 1].trim();
				}
				out.add((d.getSource() == null ? "" : d.getSource().getName() + ":" + d.getLineNumber() + ": ") + d.getMessage(Locale.ENGLISH) + line);
			}
		if (!ok && out.isEmpty()) out.add("the compiler fails without a message");
		return out;
	}

	static class Ops {
		final Loader l;
		final Map<String, Object> q;

		Ops(Loader l, Map<String, Object> q) {
			this.l = l;
			this.q = q;
		}

		String s(String k) {
			return (String) q.get(k);
		}

		Object run() throws Exception {
			switch (s("op")) {
				case "api":
					return api();
				case "bean":
					return bean();
				case "enum":
					return enums();
				case "rpc":
					return rpc();
			}
			throw new Exception("unknown operation " + s("op"));
		}

		// public members of a class
		Object api() throws Exception {
			Class<?> c;
			try {
				c = Class.forName(s("type"), true, l);
			} catch (ClassNotFoundException e) {
				return Map.of("m", Map.of("none", true));
			}
			Map<String, Object> m = new HashMap<>();
			m.put("interface", c.isInterface());
			m.put("public", Modifier.isPublic(c.getModifiers()));
			Set<String> sup = new TreeSet<>();
			supers(c, sup);
			m.put("supers", new ArrayList<>(sup));
			List<Object> ms = new ArrayList<>();
			for (Method x : c.getMethods()) {
				if (x.getDeclaringClass() == Object.class || x.isBridge()) continue;
				List<Object> o = new ArrayList<>();
				o.add(x.getName());
				o.add(x.getGenericReturnType().getTypeName());
				for (Type t : x.getGenericParameterTypes()) o.add(t.getTypeName());
				ms.add(o);
			}
			m.put("methods", ms);
			List<Object> nested = new ArrayList<>();
			for (Class<?> k : c.getDeclaredClasses()) nested.add(k.getSimpleName());
			m.put("nested", nested);
			return Map.of("m", m);
		}

		void supers(Class<?> c, Set<String> o) {
			for (Class<?> i : c.getInterfaces()) {
				o.add(i.getName());
				supers(i, o);
			}
			if (c.getSuperclass() != null && c.getSuperclass() != Object.class) {
				o.add(c.getSuperclass().getName());
				supers(c.getSuperclass(), o);
			}
		}

		int next;

		// a fresh value of a declared type
		Object make(Type t) throws Exception {
			int n = ++next;
			if (t instanceof ParameterizedType) {
				Type raw = ((ParameterizedType) t).getRawType();
				Type[] as = ((ParameterizedType) t).getActualTypeArguments();
				if (raw == List.class) {
					List<Object> o = new ArrayList<>();
					for (int i = 0; i < n % 3; i++) o.add(make(as[0]));
					return o;
				}
				if (raw == Map.class) {
					Map<Object, Object> o = new LinkedHashMap<>();
					for (int i = 0; i < n % 3; i++) o.put(make(as[0]), make(as[1]));
					return o;
				}
				throw new Exception("unexpected type " + t);
			}
			Class<?> c = (Class<?>) t;
			if (c == Byte.class) return new Byte((byte) n);
			if (c == Short.class) return new Short((short) n);
			if (c == Integer.class) return new Integer(n);
			if (c == Long.class) return new Long(n);
			if (c == Character.class) return new Character((char) n);
			if (c == Boolean.class) return new Boolean(n % 2 == 0);
			if (c == Float.class) return new Float(n);
			if (c == Double.class) return new Double(n);
			if (c == String.class) return new String("s" + n);
			if (c == Date.class) return new Date(n);
			if (c == BigInteger.class) return new BigInteger("" + n);
			if (c == BigDecimal.class) return new BigDecimal(n + ".5");
			if (c.isInterface()) return Class.forName(c.getName() + "Impl", true, l).getDeclaredConstructor().newInstance();
			Object vs = c.getField("values").get(null);
			return Array.get(vs, n % Array.getLength(vs));
		}

		Object bean() throws Exception {
			Class<?> c = Class.forName(s("type"), true, l);
			Class<?> itf = Class.forName(s("name"), true, l);
			Object o = c.getDeclaredConstructor().newInstance();
			Map<String, Object> want = new LinkedHashMap<>();
			List<String> bad = new ArrayList<>();
			for (Object p : (List<?>) q.get("j")) {
				String n = (String) p;
				boolean nil = n.startsWith("-");
				if (nil) n = n.substring(1);
				Method g = itf.getMethod("get" + n);
				Method set = itf.getMethod("set" + n, g.getReturnType());
				Object v = nil ? null : make(g.getGenericReturnType());
				set.invoke(o, v);
				want.put(n, v);
				for (Map.Entry<String, Object> e : want.entrySet()) {
					Object got = itf.getMethod("get" + e.getKey()).invoke(o);
					if (got != e.getValue()) bad.add("after set" + n + "(" + v + "), get" + e.getKey() + " returns " + got + ", stored was " + e.getValue());
				}
			}
			return Map.of("m", Map.of("bad", bad.size() > 5 ? bad.subList(0, 5) : bad));
		}

		Object enums() throws Exception {
			Class<?> c = Class.forName(s("type"), true, l);
			Field value = c.getField("value"), name = c.getField("name");
			Map<String, Object> m = new HashMap<>(), items = new LinkedHashMap<>(), byNum = new HashMap<>(), byName = new HashMap<>();
			List<Object> values = new ArrayList<>();
			Object vs = c.getField("values").get(null);
			for (int i = 0; i < Array.getLength(vs); i++) {
				Object e = Array.get(vs, i);
				values.add(e == null ? null : List.of(name.get(e), value.get(e).toString()));
			}
			for (Field f : c.getFields())
				if (f.getType() == c && Modifier.isStatic(f.getModifiers())) {
					Object e = f.get(null);
					int in = -1;
					for (int i = 0; i < Array.getLength(vs); i++) if (Array.get(vs, i) == e) in = i;
					items.put(f.getName(), List.of(name.get(e), value.get(e).toString(), in, e.toString(), e.equals(e), e.hashCode() == e.hashCode()));
				}
			Method valueOf = c.getMethod("valueOf", int.class), nameOf = c.getMethod("nameOf", String.class);
			for (Object n : (List<?>) q.get("nums")) if (((Number) n).longValue() == ((Number) n).intValue()) byNum.put(n.toString(), look(c, valueOf, ((Number) n).intValue(), name, value));
			for (Object n : (List<?>) q.get("names")) byName.put("=" + n, look(c, nameOf, new String((String) n), name, value));
			int eq = 0;
			for (int i = 0; i < Array.getLength(vs); i++)
				for (int j = 0; j < Array.getLength(vs); j++)
					if (Array.get(vs, i).equals(Array.get(vs, j)) != (i == j)) eq++;
			m.put("items", items);
			m.put("values", values);
			m.put("byNum", byNum);
			m.put("byName", byName);
			m.put("unequal", eq);
			return Map.of("m", m);
		}

		Object look(Class<?> c, Method f, Object a, Field name, Field value) throws Exception {
			try {
				Object e = f.invoke(null, a);
				return e == null ? "null" : List.of(name.get(e), value.get(e).toString());
			} catch (InvocationTargetException e) {
				return e.getCause() instanceof RuntimeException && !(e.getCause() instanceof NullPointerException) ? null : "!" + e.getCause();
			}
		}

		Object rpc() throws Exception {
			Map<String, Object> rec = new HashMap<>();
			Object[] param = new Object[1];
			Object result = new Object();
			Server.Client client = new Server.Client() {
				@SuppressWarnings("unchecked")
				public <T> CompletableFuture<T> invoke(String n, long id, Data p, Server.Decode<T> json, Server.Decode<T> data) throws Exception {
					rec.put("calls", (Integer) rec.getOrDefault("calls", 0) + 1);
					rec.put("path", n);
					rec.put("id", "" + id);
					rec.put("same", p == param[0]);
					Server.last[0] = Server.last[1] = null;
					T v = json.decode("{\"a\":1}".getBytes());
					rec.put("decoded", v == null ? null : v.getClass().getName());
					rec.put("decodedText", Server.last[1]);
					data.decode(new byte[0]);
					return (CompletableFuture<T>) CompletableFuture.completedFuture(result);
				}
			};
			Class<?> c = Class.forName(s("type"), true, l), itf = Class.forName(s("name"), true, l);
			Object cl = c.getConstructor(Server.Client.class).newInstance(client);
			Map<String, Object> m = new HashMap<>();
			m.put("name", c.getMethod("getName").invoke(cl));
			List<Object> out = new ArrayList<>();
			for (Object x : (List<?>) q.get("j")) {
				Map<String, Object> w = Json.map(x);
				rec.clear();
				Map<String, Object> o = new HashMap<>();
				out.add(o);
				try {
					Class<?> pt = Class.forName((String) w.get("param"), true, l);
					Method f = itf.getMethod((String) w.get("fn"), pt, Server.Context.class);
					param[0] = make(pt);
					Object r = f.invoke(cl, param[0], new Server.Context());
					o.put("type", f.getGenericReturnType().getTypeName());
					o.put("result", ((CompletableFuture<?>) r).get() == result);
				} catch (InvocationTargetException e) {
					o.put("err", text(e.getCause()));
				} catch (Throwable e) {
					o.put("err", text(e));
				}
				o.putAll(rec);
			}
			m.put("out", out);
			return Map.of("m", m);
		}
	}

	static class Json {
		final String s;
		int i;

		Json(String s) {
			this.s = s;
		}

		@SuppressWarnings("unchecked")
		static Map<String, Object> map(Object o) {
			return (Map<String, Object>) o;
		}

		static Object parse(String s) {
			return new Json(s).value();
		}

		void ws() {
			while (i < s.length() && s.charAt(i) <= ' ') i++;
		}

		Object value() {
			ws();
			char c = s.charAt(i);
			if (c == '{') {
				Map<String, Object> m = new LinkedHashMap<>();
				i++;
				for (ws(); s.charAt(i) != '}'; ws()) {
					if (s.charAt(i) == ',') {
						i++;
						ws();
					}
					String k = string();
					ws();
					i++;
					m.put(k, value());
				}
				i++;
				return m;
			}
			if (c == '[') {
				List<Object> o = new ArrayList<>();
				i++;
				for (ws(); s.charAt(i) != ']'; ws()) {
					if (s.charAt(i) == ',') i++;
					o.add(value());
				}
				i++;
				return o;
			}
			if (c == '"') return string();
			int j = i;
			while (i < s.length() && ",]} ".indexOf(s.charAt(i)) < 0) i++;
			String t = s.substring(j, i);
			if (t.equals("true")) return true;
			if (t.equals("false")) return false;
			if (t.equals("null")) return null;
			return t.matches("-?[0-9]+") ? (Object) Long.parseLong(t) : (Object) Double.parseDouble(t);
		}

		String string() {
			StringBuilder b = new StringBuilder();
			for (i++; s.charAt(i) != '"'; i++) {
				char c = s.charAt(i);
				if (c == '\\') {
					c = s.charAt(++i);
					if (c == 'u') {
						c = (char) Integer.parseInt(s.substring(i + 1, i + 5), 16);
						i += 4;
					} else c = c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c == 'b' ? '\b' : c == 'f' ? '\f' : c;
				}
				b.append(c);
			}
			i++;
			return b.toString();
		}

		static void write(StringBuilder b, Object o) {
			if (o instanceof Map) {
				b.append('{');
				boolean f = false;
				for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
					if (f) b.append(',');
					f = true;
					write(b, e.getKey().toString());
					b.append(':');
					write(b, e.getValue());
				}
				b.append('}');
			} else if (o instanceof Collection) {
				b.append('[');
				boolean f = false;
				for (Object e : (Collection<?>) o) {
					if (f) b.append(',');
					f = true;
					write(b, e);
				}
				b.append(']');
			} else if (o == null || o instanceof Boolean || o instanceof Number) b.append(o);
			else {
				b.append('"');
				for (char c : o.toString().toCharArray())
					if (c < ' ' || c == '"' || c == '\\' || c > 126) b.append(String.format("\\u%04x", (int) c));
					else b.append(c);
				b.append('"');
			}
		}
	}
}
