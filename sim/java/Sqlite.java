import com.kenai.jffi.*;
import java.util.HashMap;

/** The system's SQLite library called through JFFI: what simsql.py needs and no more. */
public class Sqlite {
	public static final int OK = 0, BUSY = 5, LOCKED = 6, ROW = 100, DONE = 101;
	private static final Library lib = Library.openLibrary("libsqlite3.so.0", Library.LAZY);
	private static final Invoker inv = Invoker.getInstance();
	private static final MemoryIO mem = MemoryIO.getInstance();
	private static final HashMap<String, Function> fns = new HashMap<String, Function>();

	private static Function fn(String name, Type ret, Type... args) {
		Function f = fns.get(name);
		if (f == null) {
			long a = lib.getSymbolAddress(name);
			if (a == 0) throw new RuntimeException("no " + name);
			f = new Function(a, ret, args);
			fns.put(name, f);
		}
		return f;
	}

	private static final Type P = Type.POINTER, I = Type.SINT, L = Type.SINT64, D = Type.DOUBLE;

	private static byte[] z(String s) throws Exception {
		byte[] b = s.getBytes("UTF-8");
		byte[] r = new byte[b.length + 1];
		System.arraycopy(b, 0, r, 0, b.length);
		return r;
	}

	private static long out(byte[] b) {
		return java.nio.ByteBuffer.wrap(b).order(java.nio.ByteOrder.nativeOrder()).getLong();
	}

	/** Opens a database: {status, handle}. */
	public static long[] open(String path) throws Exception {
		Function f = fn("sqlite3_open", I, P, P);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		byte[] n = z(path), o = new byte[8];
		b.putArray(n, 0, n.length, ArrayFlags.IN);
		b.putArray(o, 0, 8, ArrayFlags.OUT);
		int rc = inv.invokeInt(f, b);
		return new long[] {rc, out(o)};
	}

	private static int i1(String name, long p) {
		Function f = fn(name, I, P);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		b.putAddress(p);
		return inv.invokeInt(f, b);
	}

	public static int close(long db) { return i1("sqlite3_close_v2", db); }
	public static int changes(long db) { return i1("sqlite3_changes", db); }
	public static int autocommit(long db) { return i1("sqlite3_get_autocommit", db); }
	public static int extended(long db) { return i1("sqlite3_extended_errcode", db); }
	public static int step(long st) { return i1("sqlite3_step", st); }
	public static int reset(long st) { return i1("sqlite3_reset", st); }
	public static int finalize_(long st) { return i1("sqlite3_finalize", st); }
	public static int columns(long st) { return i1("sqlite3_column_count", st); }
	public static int parameters(long st) { return i1("sqlite3_bind_parameter_count", st); }

	/** 0 no transaction, 1 reading, 2 writing. */
	public static int txnState(long db) {
		Function f = fn("sqlite3_txn_state", I, P, P);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		b.putAddress(db); b.putAddress(0);
		return inv.invokeInt(f, b);
	}

	public static String errmsg(long db) throws Exception {
		Function f = fn("sqlite3_errmsg", P, P);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		b.putAddress(db);
		long p = inv.invokeAddress(f, b);
		return p == 0 ? "" : new String(mem.getZeroTerminatedByteArray(p), "UTF-8");
	}

	/** Compiles a statement: {status, handle}. */
	public static long[] prepare(long db, String sql) throws Exception {
		Function f = fn("sqlite3_prepare_v2", I, P, P, I, P, P);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		byte[] n = z(sql), o = new byte[8];
		b.putAddress(db);
		b.putArray(n, 0, n.length, ArrayFlags.IN);
		b.putInt(-1);
		b.putArray(o, 0, 8, ArrayFlags.OUT);
		b.putAddress(0);
		int rc = inv.invokeInt(f, b);
		return new long[] {rc, out(o)};
	}

	public static int bindNull(long st, int i) {
		Function f = fn("sqlite3_bind_null", I, P, I);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		b.putAddress(st); b.putInt(i);
		return inv.invokeInt(f, b);
	}

	public static int bindLong(long st, int i, long v) {
		Function f = fn("sqlite3_bind_int64", I, P, I, L);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		b.putAddress(st); b.putInt(i); b.putLong(v);
		return inv.invokeInt(f, b);
	}

	public static int bindDouble(long st, int i, double v) {
		Function f = fn("sqlite3_bind_double", I, P, I, D);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		b.putAddress(st); b.putInt(i); b.putDouble(v);
		return inv.invokeInt(f, b);
	}

	private static int bindBytes(String name, long st, int i, byte[] v) {
		Function f = fn(name, I, P, I, P, I, P);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		byte[] n = v.length == 0 ? new byte[1] : v;
		b.putAddress(st); b.putInt(i);
		b.putArray(n, 0, n.length, ArrayFlags.IN);
		b.putInt(v.length);
		b.putAddress(-1L); // SQLITE_TRANSIENT: SQLite makes its own copy
		return inv.invokeInt(f, b);
	}

	public static int bindText(long st, int i, String v) throws Exception {
		return bindBytes("sqlite3_bind_text", st, i, v.getBytes("UTF-8"));
	}

	public static int bindBlob(long st, int i, byte[] v) {
		return bindBytes("sqlite3_bind_blob", st, i, v);
	}

	private static int ci(String name, long st, int c) {
		Function f = fn(name, I, P, I);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		b.putAddress(st); b.putInt(c);
		return inv.invokeInt(f, b);
	}

	private static byte[] cb(String name, long st, int c) {
		Function f = fn(name, P, P, I);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		b.putAddress(st); b.putInt(c);
		long p = inv.invokeAddress(f, b);
		int n = ci("sqlite3_column_bytes", st, c);
		byte[] r = new byte[n];
		if (n > 0) mem.getByteArray(p, r, 0, n);
		return r;
	}

	/** A column: null, Long, Double, String or byte[]. */
	public static Object column(long st, int c) throws Exception {
		switch (ci("sqlite3_column_type", st, c)) {
		case 1: {
			Function f = fn("sqlite3_column_int64", L, P, I);
			HeapInvocationBuffer b = new HeapInvocationBuffer(f);
			b.putAddress(st); b.putInt(c);
			return Long.valueOf(inv.invokeLong(f, b));
		}
		case 2: {
			Function f = fn("sqlite3_column_double", D, P, I);
			HeapInvocationBuffer b = new HeapInvocationBuffer(f);
			b.putAddress(st); b.putInt(c);
			return Double.valueOf(inv.invokeDouble(f, b));
		}
		case 3: return new String(cb("sqlite3_column_text", st, c), "UTF-8");
		case 4: return cb("sqlite3_column_blob", st, c);
		default: return null;
		}
	}

	public static void interrupt(long db) {
		Function f = fn("sqlite3_interrupt", Type.VOID, P);
		HeapInvocationBuffer b = new HeapInvocationBuffer(f);
		b.putAddress(db);
		inv.invokeInt(f, b);
	}
}
