import java.io.*;
import java.lang.annotation.Annotation;
import java.lang.reflect.*;
import java.net.URI;
import java.nio.charset.StandardCharsets;
import java.util.*;
import javax.tools.*;

/** Compiles one source per line in memory and reports what the JVM itself says about the classes. */
public class Server {
    static final JavaCompiler JC = ToolProvider.getSystemJavaCompiler();
    static final StandardJavaFileManager STD = JC.getStandardFileManager(null, null, StandardCharsets.UTF_8);

    static final class Out extends SimpleJavaFileObject {
        final ByteArrayOutputStream bytes = new ByteArrayOutputStream();
        Out(String name) { super(URI.create("mem:///" + name.hashCode() + Math.random() + ".class"), Kind.CLASS); }
        @Override public OutputStream openOutputStream() { return bytes; }
    }
    static final class Src extends SimpleJavaFileObject {
        final String text;
        Src(String name, String text) { super(URI.create("mem:///" + name), Kind.SOURCE); this.text = text; }
        @Override public CharSequence getCharContent(boolean i) { return text; }
    }
    static final class Mgr extends ForwardingJavaFileManager<StandardJavaFileManager> {
        final TreeMap<String, Out> outs = new TreeMap<>();
        Mgr() { super(STD); }
        @Override public JavaFileObject getJavaFileForOutput(Location l, String c, JavaFileObject.Kind k, FileObject s) {
            Out o = new Out(c); outs.put(c, o); return o;
        }
    }
    static final class Ld extends ClassLoader {
        final Map<String, Out> outs;
        Ld(Map<String, Out> o) { super(Server.class.getClassLoader()); outs = o; }
        @Override protected Class<?> findClass(String n) throws ClassNotFoundException {
            Out o = outs.get(n);
            if (o == null) throw new ClassNotFoundException(n);
            byte[] b = o.bytes.toByteArray();
            return defineClass(n, b, 0, b.length);
        }
    }

    static StringBuilder sb;
    static void str(String s) {
        if (s == null) { sb.append("null"); return; }
        sb.append('"');
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') sb.append('\\').append(c);
            else if (c < 32 || c > 126) sb.append(String.format("\\u%04x", (int) c));
            else sb.append(c);
        }
        sb.append('"');
    }
    static void key(String k) { if (sb.charAt(sb.length() - 1) != '{') sb.append(','); str(k); sb.append(':'); }
    static void strs(Collection<String> c) {
        sb.append('[');
        boolean f = true;
        for (String s : c) { if (!f) sb.append(','); f = false; str(s); }
        sb.append(']');
    }
    static String desc(Class<?> c) { return c.descriptorString(); }
    static String internal(Class<?> c) { return c.getName().replace('.', '/'); }
    static List<String> ann(AnnotatedElement e) {
        List<String> l = new ArrayList<>();
        for (Annotation a : e.getDeclaredAnnotations()) l.add(desc(a.annotationType()));
        return l;
    }
    static List<String> names(Class<?>[] cs) {
        List<String> l = new ArrayList<>();
        for (Class<?> c : cs) l.add(internal(c));
        return l;
    }
    static String sig(Object o, Class<?> declaring, String method) throws Exception {
        Method m = declaring.getDeclaredMethod(method);
        m.setAccessible(true);
        return (String) m.invoke(o);
    }
    static String field(Object o, Class<?> declaring, String f) throws Exception {
        Field x = declaring.getDeclaredField(f);
        x.setAccessible(true);
        return (String) x.get(o);
    }
    static void exec(Executable m, String name, Class<?> ret, String sig) {
        StringBuilder d = new StringBuilder("(");
        for (Class<?> p : m.getParameterTypes()) d.append(desc(p));
        d.append(')').append(desc(ret));
        sb.append('{');
        key("name"); str(name);
        key("mods"); sb.append(m.getModifiers());
        key("desc"); str(d.toString());
        key("sig"); str(sig);
        key("exc"); strs(names(m.getExceptionTypes()));
        key("ann"); strs(ann(m));
        key("params");
        Parameter[] ps = m.getParameters();
        if (ps.length == 0 || !ps[0].isNamePresent()) sb.append("null");
        else {
            sb.append('[');
            for (int i = 0; i < ps.length; i++) {
                if (i > 0) sb.append(',');
                sb.append('{'); key("name"); str(ps[i].getName()); key("mods"); sb.append(ps[i].getModifiers()); sb.append('}');
            }
            sb.append(']');
        }
        sb.append('}');
    }

    static void one(String name, Ld ld, byte[] bytes) throws Exception {
        sb.append('{');
        key("bytes"); str(Base64.getEncoder().encodeToString(bytes));
        if (name.equals("module-info") || name.endsWith(".package-info")) { key("name"); str(name); sb.append('}'); return; }
        Class<?> c = Class.forName(name, false, ld);
        key("name"); str(internal(c));
        key("mods"); sb.append(c.getModifiers());
        key("kind"); str(c.isAnnotation() ? "Annotation" : c.isEnum() ? "Enum" : c.isRecord() ? "Record" : c.isInterface() ? "Interface" : "Class");
        key("named"); sb.append(c.isMemberClass() || (c.getEnclosingClass() == null));
        key("member"); sb.append(c.isMemberClass());
        key("super"); str(c.isInterface() ? "java/lang/Object" : internal(c.getSuperclass()));
        key("ifaces"); strs(names(c.getInterfaces()));
        Method gs = Class.class.getDeclaredMethod("getGenericSignature0");
        gs.setAccessible(true);
        key("sig"); str((String) gs.invoke(c));
        key("ann"); strs(ann(c));
        key("declared"); strs(new TreeSet<>(names(c.getDeclaredClasses())));
        key("outer"); str(c.getDeclaringClass() == null ? null : internal(c.getDeclaringClass()));
        key("simple"); str(c.getSimpleName());
        key("fields"); sb.append('[');
        boolean f = true;
        for (Field x : c.getDeclaredFields()) {
            if (!f) sb.append(','); f = false;
            sb.append('{');
            key("name"); str(x.getName()); key("mods"); sb.append(x.getModifiers()); key("desc"); str(desc(x.getType()));
            key("sig"); str(sig(x, Field.class, "getGenericSignature")); key("ann"); strs(ann(x));
            sb.append('}');
        }
        sb.append(']');
        key("methods"); sb.append('[');
        f = true;
        for (Method m : c.getDeclaredMethods()) {
            if (!f) sb.append(','); f = false;
            exec(m, m.getName(), m.getReturnType(), sig(m, Method.class, "getGenericSignature"));
        }
        for (Constructor<?> m : c.getDeclaredConstructors()) {
            if (!f) sb.append(','); f = false;
            exec(m, "<init>", void.class, sig(m, Constructor.class, "getSignature"));
        }
        sb.append(']');
        key("comps");
        if (!c.isRecord()) sb.append("null");
        else {
            sb.append('[');
            f = true;
            for (RecordComponent r : c.getRecordComponents()) {
                if (!f) sb.append(','); f = false;
                sb.append('{'); key("name"); str(r.getName()); key("desc"); str(desc(r.getType())); key("sig"); str(r.getGenericSignature()); key("ann"); strs(ann(r)); sb.append('}');
            }
            sb.append(']');
        }
        sb.append('}');
    }

    public static void main(String[] a) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = System.out;
        System.setOut(System.err);
        String line;
        while ((line = in.readLine()) != null) {
            String[] p = line.split("\t", -1);
            String text = new String(Base64.getDecoder().decode(p[0]), StandardCharsets.UTF_8);
            sb = new StringBuilder("{");
            try {
                Mgr mgr = new Mgr();
                StringWriter w = new StringWriter();
                List<String> opts = p[2].isEmpty() ? List.of() : List.of(p[2].split(","));
                boolean ok = JC.getTask(w, mgr, d -> w.write(d.getKind() == Diagnostic.Kind.ERROR ? d + "\n" : ""), opts, null, List.of(new Src(p[1], text))).call();
                key("ok"); sb.append(ok);
                key("err"); str(w.toString());
                key("classes"); sb.append('[');
                if (ok) {
                    Ld ld = new Ld(mgr.outs);
                    boolean f = true;
                    for (Map.Entry<String, Out> e : mgr.outs.entrySet()) {
                        if (!f) sb.append(','); f = false;
                        one(e.getKey(), ld, e.getValue().bytes.toByteArray());
                    }
                }
                sb.append("]}");
            } catch (Throwable t) {
                StringWriter w = new StringWriter();
                t.printStackTrace(new PrintWriter(w));
                sb = new StringBuilder("{");
                key("ok"); sb.append(false); key("err"); str("ORACLE " + w);
                sb.append('}');
            }
            out.println(sb);
            out.flush();
        }
    }
}
