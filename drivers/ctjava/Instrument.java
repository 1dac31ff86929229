import java.io.*;
import java.nio.file.*;
import jdk.internal.org.objectweb.asm.*;

/* 
 * Rewrites class files so that they report to Obs every basic block entered, every array index used and every divisor.
 * Usage: java Instrument FROM TO
 */
public final class Instrument implements Opcodes {
	
	private static int blocks = 0;
	
	public static void main(String[] args) throws IOException {
		Path from = Paths.get(args[0]), to = Paths.get(args[1]);
		Path[] files;
		try (java.util.stream.Stream<Path> s = Files.walk(from)) {
			files = s.filter(p -> p.toString().endsWith(".class")).sorted().toArray(Path[]::new);
		}
		for (Path p : files) {
			ClassReader in = new ClassReader(Files.readAllBytes(p));
			ClassWriter out = new ClassWriter(in, ClassWriter.COMPUTE_MAXS);
			in.accept(new ClassVisitor(ASM8, out) {
				@Override public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
					return new Rewriter(super.visitMethod(acc, name, desc, sig, ex));
				}
			}, 0);
			Path q = to.resolve(from.relativize(p));
			Files.createDirectories(q.getParent());
			Files.write(q, out.toByteArray());
		}
	}
	
	private static final class Rewriter extends MethodVisitor {
		private boolean pending = true;
		
		Rewriter(MethodVisitor mv) { super(ASM8, mv); }
		
		private void call(String name, String desc) { super.visitMethodInsn(INVOKESTATIC, "Obs", name, desc, false); }
		
		private void begin() {
			if (!pending)
				return;
			pending = false;
			blocks++;
			super.visitLdcInsn(blocks);
			call("block", "(I)V");
		}
		
		@Override public void visitLabel(Label l) { super.visitLabel(l); pending = true; }
		@Override public void visitJumpInsn(int op, Label l) { begin(); super.visitJumpInsn(op, l); pending = true; }
		@Override public void visitTableSwitchInsn(int a, int b, Label d, Label... l) { begin(); super.visitTableSwitchInsn(a, b, d, l); pending = true; }
		@Override public void visitLookupSwitchInsn(Label d, int[] k, Label[] l) { begin(); super.visitLookupSwitchInsn(d, k, l); pending = true; }
		@Override public void visitIntInsn(int op, int x) { begin(); super.visitIntInsn(op, x); }
		@Override public void visitVarInsn(int op, int x) { begin(); super.visitVarInsn(op, x); }
		@Override public void visitTypeInsn(int op, String t) { begin(); super.visitTypeInsn(op, t); }
		@Override public void visitFieldInsn(int op, String o, String n, String d) { begin(); super.visitFieldInsn(op, o, n, d); }
		// Library methods whose running time depends on values are replaced by ones that report it.
		@Override public void visitMethodInsn(int op, String o, String n, String d, boolean i) {
			begin();
			if (op == INVOKESTATIC && (o.equals("java/util/Arrays") && (d.startsWith("([B[B)") || d.startsWith("([I[I)")) && n.matches("equals|compare|compareUnsigned|mismatch")
					|| o.equals("java/lang/System") && n.equals("arraycopy")
					|| o.equals("java/util/Arrays") && n.equals("fill") && (d.equals("([IIII)V") || d.equals("([BIIB)V"))))
				o = "Obs";
			if (o.equals("java/math/BigInteger") && op == INVOKEVIRTUAL && d.startsWith("(Ljava/math/BigInteger;)")) {
				super.visitInsn(DUP);
				call("big", "(Ljava/math/BigInteger;)V");
			}
			super.visitMethodInsn(op, o, n, d, i);
			if (o.equals("java/math/BigInteger") && d.endsWith(")Ljava/math/BigInteger;")) {
				super.visitInsn(DUP);
				call("big", "(Ljava/math/BigInteger;)V");
			}
		}
		@Override public void visitInvokeDynamicInsn(String n, String d, Handle h, Object... a) { begin(); super.visitInvokeDynamicInsn(n, d, h, a); }
		@Override public void visitLdcInsn(Object v) { begin(); super.visitLdcInsn(v); }
		@Override public void visitIincInsn(int v, int k) { begin(); super.visitIincInsn(v, k); }
		@Override public void visitMultiANewArrayInsn(String d, int n) { begin(); super.visitMultiANewArrayInsn(d, n); }
		
		@Override public void visitInsn(int op) {
			begin();
			switch (op) {
				case IALOAD: case LALOAD: case FALOAD: case DALOAD: case AALOAD: case BALOAD: case CALOAD: case SALOAD:
					super.visitInsn(DUP2);
					call("load", "(Ljava/lang/Object;I)V");
					break;
				case IASTORE: case FASTORE: case AASTORE: case BASTORE: case CASTORE: case SASTORE:
					super.visitInsn(DUP_X2);
					super.visitInsn(POP);
					super.visitInsn(DUP2);
					call("store", "(Ljava/lang/Object;I)V");
					super.visitInsn(DUP2_X1);
					super.visitInsn(POP2);
					break;
				case LASTORE: case DASTORE:
					super.visitInsn(DUP2_X2);
					super.visitInsn(POP2);
					super.visitInsn(DUP2);
					call("store", "(Ljava/lang/Object;I)V");
					super.visitInsn(DUP2_X2);
					super.visitInsn(POP2);
					break;
				case IDIV: case IREM:
					super.visitInsn(DUP);
					call("divide", "(I)V");
					break;
				case LDIV: case LREM:
					super.visitInsn(DUP2);
					call("divide", "(J)V");
					break;
			}
			super.visitInsn(op);
		}
	}
	
}
