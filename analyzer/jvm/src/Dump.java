import com.sun.source.tree.*;
import com.sun.source.util.*;
import java.io.*;
import java.net.URI;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.*;
import javax.lang.model.element.*;
import javax.lang.model.type.*;
import javax.lang.model.util.*;
import javax.tools.*;

/**
 * Parses and attributes Java sources with javac and prints their syntax trees,
 * with resolved symbols, as JSON.  Nothing is executed.
 */
public class Dump {
    static class Src extends SimpleJavaFileObject {
        final String text;
        final boolean dump;
        Src(String name, String text, boolean dump) {
            super(URI.create("mem:///" + name), Kind.SOURCE);
            this.text = text;
            this.dump = dump;
        }
        @Override public CharSequence getCharContent(boolean i) { return text; }
    }

    static String base;

    public static void main(String[] args) throws Exception {
        base = args[0];
        DataInputStream in = new DataInputStream(new BufferedInputStream(System.in));
        DataOutputStream out = new DataOutputStream(new BufferedOutputStream(System.out));
        ExecutorService pool = Executors.newFixedThreadPool(6);
        while (true) {
            int id;
            try { id = in.readInt(); } catch (EOFException e) { break; }
            boolean emit = in.readBoolean();
            int n = in.readInt();
            List<Src> srcs = new ArrayList<>();
            for (int i = 0; i < n; i++) {
                String name = new String(read(in), StandardCharsets.UTF_8);
                boolean dump = in.readBoolean();
                srcs.add(new Src(name, new String(read(in), StandardCharsets.UTF_8), dump));
            }
            Runnable job = () -> {
                String r;
                try { r = run(srcs, emit); } catch (Throwable t) {
                    StringWriter w = new StringWriter();
                    t.printStackTrace(new PrintWriter(w));
                    r = "{\"fail\":" + q(w.toString()) + "}";
                }
                byte[] b = r.getBytes(StandardCharsets.UTF_8);
                synchronized (out) {
                    try { out.writeInt(id); out.writeInt(b.length); out.write(b); out.flush(); } catch (IOException e) { System.exit(3); }
                }
            };
            if (emit) job.run(); else pool.execute(job);
        }
        pool.shutdown();
        pool.awaitTermination(10, TimeUnit.MINUTES);
    }

    static byte[] read(DataInputStream in) throws IOException {
        byte[] b = new byte[in.readInt()];
        in.readFully(b);
        return b;
    }

    static String run(List<Src> srcs, boolean emit) throws Exception {
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        DiagnosticCollector<JavaFileObject> diag = new DiagnosticCollector<>();
        StandardJavaFileManager fm = jc.getStandardFileManager(diag, Locale.ROOT, StandardCharsets.UTF_8);
        List<String> opts = new ArrayList<>(List.of("-proc:none", "-nowarn", "-Xlint:none", "--release", "8", "-cp", base, "-Xmaxerrs", "400"));
        if (emit) opts.addAll(List.of("-d", base));
        JavacTask task = (JavacTask) jc.getTask(null, fm, diag, opts, null, srcs);
        List<CompilationUnitTree> units = new ArrayList<>();
        for (CompilationUnitTree u : task.parse()) units.add(u);
        StringBuilder sb = new StringBuilder();
        task.analyze();
        boolean bad = false;
        sb.append("{\"errors\":[");
        for (Diagnostic<? extends JavaFileObject> d : diag.getDiagnostics()) {
            if (d.getKind() != Diagnostic.Kind.ERROR) continue;
            if (bad) sb.append(",");
            bad = true;
            Src s = null;
            for (Src x : srcs) if (d.getSource() != null && d.getSource().getName().equals(x.getName())) s = x;
            String line = "";
            if (s != null) {
                String[] ls = s.text.split("\n", -1);
                int k = (int) d.getLineNumber() - 1;
                if (k >= 0 && k < ls.length) line = ls[k].trim();
            }
            sb.append("{\"file\":" + q(s == null ? "" : s.getName()) + ",\"line\":" + d.getLineNumber() + ",\"msg\":" + q(d.getMessage(Locale.ROOT)) + ",\"src\":" + q(line) + "}");
        }
        sb.append("]");
        if (!bad) {
            sb.append(",\"classes\":[");
            Trees trees = Trees.instance(task);
            boolean first = true;
            Set<URI> want = new HashSet<>();
            for (Src x : srcs) if (x.dump) want.add(x.toUri());
            for (CompilationUnitTree u : units) {
                if (!want.contains(u.getSourceFile().toUri())) continue;
                D d = new D(trees, task.getElements(), task.getTypes(), u);
                for (Tree t : u.getTypeDecls()) {
                    if (!(t instanceof ClassTree)) continue;
                    d.cls((ClassTree) t, new TreePath(new TreePath(u), t));
                }
                for (String c : d.classes) {
                    if (!first) sb.append(",\n");
                    first = false;
                    sb.append(c);
                }
            }
            sb.append("]");
            if (emit) task.generate();
        }
        sb.append("}");
        fm.close();
        return sb.toString();
    }

    static String q(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        return b.append('"').toString();
    }

    /** Prints one compilation unit. */
    static class D {
        final Trees trees;
        final Elements els;
        final Types types;
        final CompilationUnitTree unit;
        final List<String> classes = new ArrayList<>();
        final LineMap lines;

        D(Trees t, Elements e, Types ty, CompilationUnitTree u) {
            trees = t; els = e; types = ty; unit = u;
            lines = u.getLineMap();
        }

        String type(TypeMirror t) {
            if (t == null) return "";
            switch (t.getKind()) {
                case DECLARED:
                    return els.getBinaryName((TypeElement) ((DeclaredType) t).asElement()).toString();
                case ARRAY:
                    return type(((ArrayType) t).getComponentType()) + "[]";
                case TYPEVAR: case INTERSECTION: case WILDCARD: case UNION:
                    return type(types.erasure(t));
                default:
                    return t.toString();
            }
        }

        String sig(ExecutableElement m) {
            StringBuilder b = new StringBuilder(m.getSimpleName());
            b.append("(");
            String sep = "";
            for (VariableElement p : m.getParameters()) {
                b.append(sep).append(type(types.erasure(p.asType())));
                sep = ",";
            }
            return b.append(")").toString();
        }

        String bin(Element e) { return e instanceof TypeElement ? els.getBinaryName((TypeElement) e).toString() : ""; }

        String mods(Set<Modifier> ms) {
            StringBuilder b = new StringBuilder();
            for (Modifier m : ms) b.append(b.length() > 0 ? " " : "").append(m);
            return b.toString();
        }

        class N {
            final StringBuilder b = new StringBuilder("{");
            N(String k, TreePath p) {
                b.append("\"k\":").append(q(k));
                if (p != null) {
                    long pos = trees.getSourcePositions().getStartPosition(unit, p.getLeaf());
                    if (pos >= 0) b.append(",\"l\":").append(lines.getLineNumber(pos));
                }
            }
            N s(String v) { b.append(",\"s\":").append(q(v)); return this; }
            N t(String v) { b.append(",\"t\":").append(q(v)); return this; }
            N o(String v) { b.append(",\"o\":").append(q(v)); return this; }
            N f(String v) { b.append(",\"f\":").append(q(v)); return this; }
            N p(List<String> v) {
                b.append(",\"p\":[");
                for (int i = 0; i < v.size(); i++) b.append(i > 0 ? "," : "").append(q(v.get(i)));
                b.append("]");
                return this;
            }
            String c(List<String> v) {
                b.append(",\"c\":[");
                for (int i = 0; i < v.size(); i++) b.append(i > 0 ? "," : "").append(v.get(i));
                return b.append("]}").toString();
            }
            String c(String... v) { return c(Arrays.asList(v)); }
        }

        String cls(ClassTree c, TreePath p) {
            TypeElement e = (TypeElement) trees.getElement(p);
            String name = bin(e);
            List<String> ifs = new ArrayList<>();
            for (TypeMirror i : e.getInterfaces()) ifs.add(type(i));
            List<String> ms = new ArrayList<>();
            for (Tree m : c.getMembers()) {
                TreePath mp = new TreePath(p, m);
                if (m instanceof ClassTree) { cls((ClassTree) m, mp); continue; }
                if (m instanceof MethodTree) {
                    MethodTree mt = (MethodTree) m;
                    ExecutableElement me = (ExecutableElement) trees.getElement(mp);
                    List<String> ps = new ArrayList<>();
                    for (VariableTree v : mt.getParameters()) ps.add(v.getName().toString());
                    ms.add(new N("method", mp).s(sig(me)).f(mods(me.getModifiers()) + (me.isVarArgs() ? " varargs" : "") + (me.getParameters().stream().anyMatch(q -> q.asType().getKind() == TypeKind.TYPEVAR) ? " typevar" : "")).p(ps).c(mt.getBody() == null ? "null" : stmt(mt.getBody(), mp)));
                } else if (m instanceof VariableTree) {
                    VariableTree v = (VariableTree) m;
                    Element ve = trees.getElement(mp);
                    ms.add(new N("field", mp).s(v.getName().toString()).t(type(ve.asType())).f(mods(ve.getModifiers())).c(v.getInitializer() == null ? "null" : expr(v.getInitializer(), mp)));
                } else if (m instanceof BlockTree) {
                    ms.add(new N("init", mp).f(((BlockTree) m).isStatic() ? "static" : "").c(stmt((BlockTree) m, mp)));
                }
            }
            Element outer = e.getEnclosingElement();
            String file = unit.getSourceFile().getName();
            classes.add(new N("class", p).s(name).t(type(e.getSuperclass())).f(mods(e.getModifiers()) + " " + e.getKind().toString().toLowerCase()).o(file).p(ifs).c(ms));
            return name;
        }

        String stmt(Tree t, TreePath parent) {
            if (t == null) return "null";
            TreePath p = new TreePath(parent, t);
            switch (t.getKind()) {
                case BLOCK: return new N("block", p).c(stmts(((BlockTree) t).getStatements(), p));
                case EMPTY_STATEMENT: return new N("nop", p).c();
                case EXPRESSION_STATEMENT: return new N("expr", p).c(expr(((ExpressionStatementTree) t).getExpression(), p));
                case VARIABLE: {
                    VariableTree v = (VariableTree) t;
                    Element ve = trees.getElement(p);
                    return new N("var", p).s(v.getName().toString()).t(ve == null ? "" : type(ve.asType())).c(v.getInitializer() == null ? "null" : expr(v.getInitializer(), p));
                }
                case IF: {
                    IfTree i = (IfTree) t;
                    return new N("if", p).c(expr(i.getCondition(), p), stmt(i.getThenStatement(), p), stmt(i.getElseStatement(), p));
                }
                case WHILE_LOOP: {
                    WhileLoopTree w = (WhileLoopTree) t;
                    return new N("while", p).c(expr(w.getCondition(), p), stmt(w.getStatement(), p));
                }
                case DO_WHILE_LOOP: {
                    DoWhileLoopTree w = (DoWhileLoopTree) t;
                    return new N("dowhile", p).c(expr(w.getCondition(), p), stmt(w.getStatement(), p));
                }
                case FOR_LOOP: {
                    ForLoopTree f = (ForLoopTree) t;
                    return new N("for", p).c(new N("block", null).c(stmts(f.getInitializer(), p)), f.getCondition() == null ? "null" : expr(f.getCondition(), p),
                        new N("block", null).c(stmts(f.getUpdate(), p)), stmt(f.getStatement(), p));
                }
                case ENHANCED_FOR_LOOP: {
                    EnhancedForLoopTree f = (EnhancedForLoopTree) t;
                    return new N("foreach", p).s(f.getVariable().getName().toString()).t(type(trees.getTypeMirror(new TreePath(p, f.getVariable())))).c(expr(f.getExpression(), p), stmt(f.getStatement(), p));
                }
                case LABELED_STATEMENT: {
                    LabeledStatementTree l = (LabeledStatementTree) t;
                    return new N("label", p).s(l.getLabel().toString()).c(stmt(l.getStatement(), p));
                }
                case BREAK: return new N("break", p).s(((BreakTree) t).getLabel() == null ? "" : ((BreakTree) t).getLabel().toString()).c();
                case CONTINUE: return new N("continue", p).s(((ContinueTree) t).getLabel() == null ? "" : ((ContinueTree) t).getLabel().toString()).c();
                case RETURN: return new N("return", p).c(((ReturnTree) t).getExpression() == null ? "null" : expr(((ReturnTree) t).getExpression(), p));
                case THROW: return new N("throw", p).c(expr(((ThrowTree) t).getExpression(), p));
                case SYNCHRONIZED: return new N("sync", p).c(stmt(((SynchronizedTree) t).getBlock(), p));
                case ASSERT: return new N("nop", p).c();
                case SWITCH: {
                    SwitchTree s = (SwitchTree) t;
                    List<String> cs = new ArrayList<>();
                    cs.add(expr(s.getExpression(), p));
                    for (CaseTree c : s.getCases()) cs.add(kase(c, p));
                    return new N("switch", p).c(cs);
                }
                case TRY: {
                    TryTree y = (TryTree) t;
                    if (!y.getResources().isEmpty()) return new N("unsupported", p).s("try with resources").c();
                    List<String> cs = new ArrayList<>();
                    cs.add(stmt(y.getBlock(), p));
                    cs.add(stmt(y.getFinallyBlock(), p));
                    for (CatchTree c : y.getCatches()) {
                        TreePath cp = new TreePath(p, c);
                        VariableTree v = c.getParameter();
                        List<String> ts = new ArrayList<>();
                        Tree vt = v.getType();
                        TreePath vp = new TreePath(new TreePath(cp, v), vt);
                        if (vt instanceof UnionTypeTree) for (Tree a : ((UnionTypeTree) vt).getTypeAlternatives()) ts.add(type(trees.getTypeMirror(new TreePath(vp, a))));
                        else ts.add(type(trees.getTypeMirror(vp)));
                        cs.add(new N("catch", cp).s(v.getName().toString()).p(ts).c(stmt(c.getBlock(), cp)));
                    }
                    return new N("try", p).c(cs);
                }
                case CLASS: case INTERFACE: case ENUM: {
                    cls((ClassTree) t, p);
                    return new N("nop", p).c();
                }
                default:
                    return new N("unsupported", p).s(t.getKind().toString()).c();
            }
        }

        String kase(CaseTree c, TreePath parent) {
            TreePath p = new TreePath(parent, c);
            List<String> ls = new ArrayList<>();
            for (ExpressionTree e : c.getExpressions()) ls.add(e.getKind() == Tree.Kind.IDENTIFIER && trees.getElement(new TreePath(p, e)) != null && trees.getElement(new TreePath(p, e)).getKind() == ElementKind.ENUM_CONSTANT
                ? new N("enumc", null).s(((IdentifierTree) e).getName().toString()).c() : expr(e, p));
            List<String> body;
            String f = "";
            if (c.getCaseKind() == CaseTree.CaseKind.RULE) {
                f = "rule";
                Tree b = c.getBody();
                body = new ArrayList<>();
                if (b instanceof ExpressionTree) body.add(new N("expr", null).f("value").c(expr((ExpressionTree) b, p)));
                else body.add(stmt(b, p));
            } else body = stmts(c.getStatements(), p);
            return new N("case", p).f(f).c(new N("labels", null).c(ls), new N("block", null).c(body));
        }

        List<String> stmts(List<? extends Tree> l, TreePath p) {
            List<String> r = new ArrayList<>();
            for (Tree t : l) r.add(stmt(t, p));
            return r;
        }

        List<String> exprs(List<? extends ExpressionTree> l, TreePath p) {
            List<String> r = new ArrayList<>();
            for (ExpressionTree t : l) r.add(expr(t, p));
            return r;
        }

        String expr(Tree t, TreePath parent) {
            TreePath p = new TreePath(parent, t);
            String ty = type(trees.getTypeMirror(p));
            switch (t.getKind()) {
                case PARENTHESIZED: return expr(((ParenthesizedTree) t).getExpression(), p);
                case INT_LITERAL: case LONG_LITERAL: case FLOAT_LITERAL: case DOUBLE_LITERAL:
                case BOOLEAN_LITERAL: case STRING_LITERAL: case CHAR_LITERAL: case NULL_LITERAL: {
                    Object v = ((LiteralTree) t).getValue();
                    return new N("lit", p).s(v == null ? "" : v instanceof Character ? Integer.toString((Character) v) : v.toString()).t(v == null ? "null" : ty).c();
                }
                case IDENTIFIER: {
                    Element e = trees.getElement(p);
                    String n = ((IdentifierTree) t).getName().toString();
                    if (n.equals("this")) return new N("this", p).t(ty).c();
                    if (n.equals("super")) return new N("super", p).t(ty).c();
                    if (e != null && (e.getKind() == ElementKind.FIELD || e.getKind() == ElementKind.ENUM_CONSTANT)) {
                        boolean st = e.getModifiers().contains(Modifier.STATIC);
                        return new N(st ? "sfield" : "ifield", p).s(n).o(bin(e.getEnclosingElement())).t(ty).c();
                    }
                    if (e instanceof TypeElement) return new N("type", p).s(bin(e)).c();
                    return new N("name", p).s(n).t(ty).c();
                }
                case MEMBER_SELECT: {
                    MemberSelectTree m = (MemberSelectTree) t;
                    Element e = trees.getElement(p);
                    String n = m.getIdentifier().toString();
                    if (n.equals("class")) return new N("classlit", p).s(type(trees.getTypeMirror(new TreePath(p, m.getExpression())))).c();
                    if (n.equals("this")) return new N("outer", p).s(type(trees.getTypeMirror(p))).c();
                    if (e instanceof TypeElement) return new N("type", p).s(bin(e)).c();
                    if (e instanceof PackageElement) return new N("pkg", p).c();
                    if (e != null && (e.getKind() == ElementKind.FIELD || e.getKind() == ElementKind.ENUM_CONSTANT)) {
                        if (e.getModifiers().contains(Modifier.STATIC)) return new N("sfield", p).s(n).o(bin(e.getEnclosingElement())).t(ty).c();
                        return new N("field", p).s(n).o(bin(e.getEnclosingElement())).t(ty).c(expr(m.getExpression(), p));
                    }
                    return new N("unsupported", p).s(t.toString()).c();
                }
                case METHOD_INVOCATION: {
                    MethodInvocationTree m = (MethodInvocationTree) t;
                    ExecutableElement e = (ExecutableElement) trees.getElement(p);
                    ExpressionTree sel = m.getMethodSelect();
                    TreePath sp = new TreePath(p, sel);
                    String recv = "null";
                    String f = mods(e.getModifiers()) + (e.isVarArgs() ? " varargs" : "");
                    if (sel instanceof MemberSelectTree) {
                        ExpressionTree r = ((MemberSelectTree) sel).getExpression();
                        if (r.toString().equals("super") || r.toString().endsWith(".super")) f += " super";
                        else if (!e.getModifiers().contains(Modifier.STATIC)) recv = expr(r, sp);
                    } else if (sel.toString().equals("super") || sel.toString().equals("this")) {
                        f += " ctor";
                    } else if (!e.getModifiers().contains(Modifier.STATIC)) f += " implicit";
                    List<String> as = exprs(m.getArguments(), p);
                    as.add(0, recv);
                    return new N("call", p).s(sig(e)).o(bin(e.getEnclosingElement())).t(ty).f(f).c(as);
                }
                case NEW_CLASS: {
                    NewClassTree n = (NewClassTree) t;
                    ExecutableElement e = (ExecutableElement) trees.getElement(p);
                    String cn = type(trees.getTypeMirror(p));
                    if (n.getClassBody() != null) cn = cls(n.getClassBody(), new TreePath(p, n.getClassBody()));
                    List<String> as = exprs(n.getArguments(), p);
                    return new N("new", p).s(cn).o(e == null ? "" : sig(e)).f(e != null && e.isVarArgs() ? "varargs" : "").c(as);
                }
                case NEW_ARRAY: {
                    NewArrayTree n = (NewArrayTree) t;
                    if (n.getInitializers() != null) return new N("array", p).t(ty).c(exprs(n.getInitializers(), p));
                    return new N("newarray", p).t(ty).c(exprs(n.getDimensions(), p));
                }
                case LAMBDA_EXPRESSION: {
                    LambdaExpressionTree l = (LambdaExpressionTree) t;
                    List<String> ps = new ArrayList<>();
                    for (VariableTree v : l.getParameters()) ps.add(v.getName().toString());
                    boolean ex = l.getBodyKind() == LambdaExpressionTree.BodyKind.EXPRESSION;
                    return new N("lambda", p).t(ty).f(ex ? "expr" : "").p(ps).c(ex ? expr(l.getBody(), p) : stmt(l.getBody(), p));
                }
                case MEMBER_REFERENCE: {
                    MemberReferenceTree m = (MemberReferenceTree) t;
                    ExecutableElement e = (ExecutableElement) trees.getElement(p);
                    TreePath qp = new TreePath(p, m.getQualifierExpression());
                    Element qe = trees.getElement(qp);
                    boolean isType = qe instanceof TypeElement || qe == null;
                    String f = mods(e.getModifiers()) + (isType ? " type" : "");
                    if (m.getMode() == MemberReferenceTree.ReferenceMode.NEW) f += " new";
                    return new N("ref", p).s(sig(e)).o(bin(e.getEnclosingElement())).t(ty).f(f).c(isType ? "null" : expr(m.getQualifierExpression(), p));
                }
                case CONDITIONAL_EXPRESSION: {
                    ConditionalExpressionTree c = (ConditionalExpressionTree) t;
                    return new N("cond", p).t(ty).c(expr(c.getCondition(), p), expr(c.getTrueExpression(), p), expr(c.getFalseExpression(), p));
                }
                case TYPE_CAST: return new N("cast", p).t(ty).c(expr(((TypeCastTree) t).getExpression(), p));
                case INSTANCE_OF: {
                    InstanceOfTree i = (InstanceOfTree) t;
                    return new N("instanceof", p).s(type(trees.getTypeMirror(new TreePath(p, i.getType())))).c(expr(i.getExpression(), p));
                }
                case ARRAY_ACCESS: {
                    ArrayAccessTree a = (ArrayAccessTree) t;
                    return new N("index", p).t(ty).c(expr(a.getExpression(), p), expr(a.getIndex(), p));
                }
                case ASSIGNMENT: {
                    AssignmentTree a = (AssignmentTree) t;
                    return new N("assign", p).t(ty).c(expr(a.getVariable(), p), expr(a.getExpression(), p));
                }
                default:
                    if (t instanceof CompoundAssignmentTree) {
                        CompoundAssignmentTree a = (CompoundAssignmentTree) t;
                        return new N("opassign", p).s(t.getKind().toString()).t(ty).c(expr(a.getVariable(), p), expr(a.getExpression(), p));
                    }
                    if (t instanceof BinaryTree) {
                        BinaryTree b = (BinaryTree) t;
                        return new N("bin", p).s(t.getKind().toString()).t(ty).c(expr(b.getLeftOperand(), p), expr(b.getRightOperand(), p));
                    }
                    if (t instanceof UnaryTree) {
                        UnaryTree u = (UnaryTree) t;
                        return new N("un", p).s(t.getKind().toString()).t(ty).c(expr(u.getExpression(), p));
                    }
                    if (t.getKind().toString().equals("SWITCH_EXPRESSION")) return new N("unsupported", p).s("switch expression").c();
                    return new N("unsupported", p).s(t.getKind().toString()).c();
            }
        }
    }
}
