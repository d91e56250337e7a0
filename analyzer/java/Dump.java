import com.sun.source.tree.*;
import com.sun.source.util.*;
import javax.tools.*;
import javax.lang.model.element.Modifier;
import java.io.*;
import java.net.URI;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.stream.*;

// Dump: type-checks Java sources given on standard input against the stub libraries and writes their
// syntax trees as JSON. The sources are compiled in memory; nothing of them is run.
public class Dump {
    static class Src extends SimpleJavaFileObject {
        final String text;
        Src(String name, String text) {
            super(URI.create("string:///" + name.replace(' ', '_')), Kind.SOURCE);
            this.text = text;
        }
        @Override public CharSequence getCharContent(boolean ignore) { return text; }
    }

    static StringBuilder out;

    static void str(String s) {
        if (s == null) { out.append("null"); return; }
        out.append('"');
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            if (c == '"' || c == '\\') out.append('\\').append(c);
            else if (c < 0x20 || c > 0x7e) out.append(String.format("\\u%04x", (int) c));
            else out.append(c);
        }
        out.append('"');
    }

    static void open(Tree t, String k) {
        out.append("{\"k\":");
        str(k);
    }
    static void field(String n, String v) { out.append(",\"").append(n).append("\":"); str(v); }
    static void field(String n, Tree t) { if (t == null) return; out.append(",\"").append(n).append("\":"); node(t); }
    static void list(String n, Iterable<? extends Tree> ts) {
        out.append(",\"").append(n).append("\":[");
        boolean first = true;
        if (ts != null) for (Tree t : ts) {
            if (!first) out.append(',');
            first = false;
            node(t);
        }
        out.append(']');
    }
    static void mods(ModifiersTree m) {
        out.append(",\"mods\":[");
        boolean first = true;
        for (Modifier x : m.getFlags()) {
            if (!first) out.append(',');
            first = false;
            str(x.toString());
        }
        out.append(']');
        list("annos", m.getAnnotations());
    }

    static void node(Tree t) {
        if (t == null) { out.append("null"); return; }
        String k = t.getKind().toString();
        switch (t.getKind()) {
        case COMPILATION_UNIT: {
            CompilationUnitTree x = (CompilationUnitTree) t;
            open(t, k);
            field("name", x.getSourceFile().getName());
            field("pkg", x.getPackageName() == null ? "" : x.getPackageName().toString());
            out.append(",\"imports\":[");
            boolean first = true;
            for (ImportTree i : x.getImports()) {
                if (!first) out.append(',');
                first = false;
                str((i.isStatic() ? "static " : "") + i.getQualifiedIdentifier());
            }
            out.append(']');
            list("types", x.getTypeDecls());
            break;
        }
        case CLASS: case INTERFACE: case ENUM: case ANNOTATION_TYPE: case RECORD: {
            ClassTree x = (ClassTree) t;
            open(t, k);
            field("name", x.getSimpleName().toString());
            mods(x.getModifiers());
            field("ext", x.getExtendsClause() == null ? "" : x.getExtendsClause().toString());
            out.append(",\"impl\":[");
            out.append(x.getImplementsClause().stream().map(i -> "\"" + i + "\"").collect(Collectors.joining(",")));
            out.append(']');
            list("members", x.getMembers());
            break;
        }
        case METHOD: {
            MethodTree x = (MethodTree) t;
            open(t, k);
            field("name", x.getName().toString());
            mods(x.getModifiers());
            field("type", x.getReturnType() == null ? "" : x.getReturnType().toString());
            list("params", x.getParameters());
            field("body", x.getBody());
            break;
        }
        case VARIABLE: {
            VariableTree x = (VariableTree) t;
            open(t, k);
            field("name", x.getName().toString());
            mods(x.getModifiers());
            field("type", x.getType() == null ? "" : x.getType().toString());
            field("init", x.getInitializer());
            break;
        }
        case ANNOTATION: {
            AnnotationTree x = (AnnotationTree) t;
            open(t, k);
            field("name", x.getAnnotationType().toString());
            list("args", x.getArguments());
            break;
        }
        case BLOCK: {
            BlockTree x = (BlockTree) t;
            open(t, k);
            if (x.isStatic()) field("static", "true");
            list("body", x.getStatements());
            break;
        }
        case EXPRESSION_STATEMENT: open(t, k); field("e", ((ExpressionStatementTree) t).getExpression()); break;
        case RETURN: open(t, k); field("e", ((ReturnTree) t).getExpression()); break;
        case THROW: open(t, k); field("e", ((ThrowTree) t).getExpression()); break;
        case PARENTHESIZED: node(((ParenthesizedTree) t).getExpression()); return;
        case IF: {
            IfTree x = (IfTree) t;
            open(t, k); field("cond", x.getCondition()); field("then", x.getThenStatement()); field("else", x.getElseStatement());
            break;
        }
        case ENHANCED_FOR_LOOP: {
            EnhancedForLoopTree x = (EnhancedForLoopTree) t;
            open(t, k); field("var", x.getVariable()); field("e", x.getExpression()); field("body1", x.getStatement());
            break;
        }
        case SWITCH: {
            SwitchTree x = (SwitchTree) t;
            open(t, k); field("e", x.getExpression()); list("cases", x.getCases());
            break;
        }
        case CASE: {
            CaseTree x = (CaseTree) t;
            open(t, k); list("labels", x.getExpressions());
            if (x.getCaseKind() == CaseTree.CaseKind.RULE) { field("rule", x.getBody()); list("body", List.of()); } else list("body", x.getStatements());
            break;
        }
        case TRY: {
            TryTree x = (TryTree) t;
            open(t, k); field("block", x.getBlock()); list("resources", x.getResources()); list("catches", x.getCatches()); field("finally", x.getFinallyBlock());
            break;
        }
        case CATCH: {
            CatchTree x = (CatchTree) t;
            open(t, k); field("param", x.getParameter()); field("block", x.getBlock());
            break;
        }
        case METHOD_INVOCATION: {
            MethodInvocationTree x = (MethodInvocationTree) t;
            open(t, k); field("f", x.getMethodSelect()); list("args", x.getArguments());
            break;
        }
        case NEW_CLASS: {
            NewClassTree x = (NewClassTree) t;
            open(t, k); field("type", x.getIdentifier().toString()); list("args", x.getArguments()); field("anon", x.getClassBody());
            break;
        }
        case MEMBER_SELECT: {
            MemberSelectTree x = (MemberSelectTree) t;
            open(t, k); field("e", x.getExpression()); field("name", x.getIdentifier().toString());
            break;
        }
        case IDENTIFIER: open(t, k); field("name", ((IdentifierTree) t).getName().toString()); break;
        case ASSIGNMENT: {
            AssignmentTree x = (AssignmentTree) t;
            open(t, k); field("l", x.getVariable()); field("r", x.getExpression());
            break;
        }
        case CONDITIONAL_EXPRESSION: {
            ConditionalExpressionTree x = (ConditionalExpressionTree) t;
            open(t, k); field("cond", x.getCondition()); field("then", x.getTrueExpression()); field("else", x.getFalseExpression());
            break;
        }
        case INSTANCE_OF: {
            InstanceOfTree x = (InstanceOfTree) t;
            open(t, k); field("e", x.getExpression()); field("type", String.valueOf(x.getType())); field("var", x.getPattern());
            break;
        }
        case TYPE_CAST: {
            TypeCastTree x = (TypeCastTree) t;
            open(t, k); field("type", x.getType().toString()); field("e", x.getExpression());
            break;
        }
        case ARRAY_ACCESS: {
            ArrayAccessTree x = (ArrayAccessTree) t;
            open(t, k); field("e", x.getExpression()); field("i", x.getIndex());
            break;
        }
        case NEW_ARRAY: {
            NewArrayTree x = (NewArrayTree) t;
            open(t, k); field("type", String.valueOf(x.getType())); list("args", x.getInitializers());
            break;
        }
        default:
            if (t instanceof LiteralTree) {
                Object v = ((LiteralTree) t).getValue();
                open(t, k);
                field("v", v == null ? "null" : v.toString());
            } else if (t instanceof BinaryTree) {
                BinaryTree x = (BinaryTree) t;
                open(t, k); field("l", x.getLeftOperand()); field("r", x.getRightOperand()); field("bin", "true");
            } else if (t instanceof UnaryTree) {
                open(t, k); field("e", ((UnaryTree) t).getExpression());
            } else {
                open(t, k);
                field("text", t.toString());
            }
        }
        out.append('}');
    }

    static String line(InputStream in) throws IOException {
        StringBuilder b = new StringBuilder();
        int c;
        while ((c = in.read()) >= 0 && c != '\n') b.append((char) c);
        if (c < 0 && b.length() == 0) return null;
        return b.toString();
    }
    static String text(InputStream in) throws IOException {
        int n = Integer.parseInt(line(in));
        return new String(in.readNBytes(n), StandardCharsets.UTF_8);
    }

    // stubs splits a stub source file: each unit starts with a line "//// path/Name.java".
    static List<Src> stubs(String file) throws IOException {
        List<Src> r = new ArrayList<>();
        String name = null;
        StringBuilder b = new StringBuilder();
        for (String l : Files.readAllLines(Paths.get(file))) {
            if (l.startsWith("//// ")) {
                if (name != null) r.add(new Src(name, b.toString()));
                name = l.substring(5).trim();
                b = new StringBuilder();
            } else b.append(l).append('\n');
        }
        if (name != null) r.add(new Src(name, b.toString()));
        return r;
    }

    public static void main(String[] args) throws Exception {
        InputStream in = new BufferedInputStream(System.in);
        PrintStream res = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        Path tmp = Paths.get(args[1]);
        List<String> stubOpts = List.of("-proc:none", "-d", tmp.toString(), "-nowarn");
        DiagnosticCollector<JavaFileObject> d0 = new DiagnosticCollector<>();
        StandardJavaFileManager fm = jc.getStandardFileManager(null, null, StandardCharsets.UTF_8);
        if (!jc.getTask(null, fm, d0, stubOpts, null, stubs(args[0])).call()) {
            for (Diagnostic<?> d : d0.getDiagnostics()) System.err.println(d);
            System.exit(3);
        }
        fm.close();
        fm = jc.getStandardFileManager(null, null, StandardCharsets.UTF_8);
        List<String> opts = List.of("-proc:none", "-nowarn", "-XDshould-stop.ifError=ATTR", "-classpath", tmp.toString());
        while (true) {
            String l = line(in);
            if (l == null) break;
            int n = Integer.parseInt(l);
            List<Src> srcs = new ArrayList<>();
            for (int i = 0; i < n; i++) {
                String name = text(in);
                srcs.add(new Src(name, text(in)));
            }
            out = new StringBuilder();
            DiagnosticCollector<JavaFileObject> dc = new DiagnosticCollector<>();
            JavacTask task = (JavacTask) jc.getTask(null, fm, dc, opts, null, srcs);
            Iterable<? extends CompilationUnitTree> units = task.parse();
            out.append("{\"units\":[");
            boolean first = true;
            for (CompilationUnitTree u : units) {
                if (!first) out.append(',');
                first = false;
                node(u);
            }
            out.append("],\"errors\":[");
            task.analyze();
            first = true;
            for (Diagnostic<? extends JavaFileObject> d : dc.getDiagnostics()) {
                if (d.getKind() != Diagnostic.Kind.ERROR) continue;
                if (!first) out.append(',');
                first = false;
                String f = d.getSource() == null ? "" : d.getSource().getName() + ":" + d.getLineNumber() + ": ";
                str(f + d.getMessage(Locale.ENGLISH).replace('\n', ' '));
            }
            out.append("]}");
            res.println(out);
            res.flush();
        }
    }
}
