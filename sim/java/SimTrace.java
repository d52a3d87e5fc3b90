import java.util.BitSet;
import java.util.HashMap;
import java.util.HashSet;
import java.util.IdentityHashMap;
import org.python.core.*;

/** Counts the lines executed in the code under test and calls back at chosen ones.
    Jython's own trace function holds a global lock while it calls back, so a task could not be parked in it. */
public class SimTrace extends TraceFunction {
    public long nsteps, nextLine = Long.MAX_VALUE, maxSteps = Long.MAX_VALUE;
    public boolean dead;
    public PyObject callback;
    public String prefix;
    private static final HashMap<String, BitSet> lines = new HashMap<String, BitSet>();
    private final IdentityHashMap<PyBaseCode, BitSet> files = new IdentityHashMap<PyBaseCode, BitSet>();
    private static final BitSet NONE = new BitSet();

    public SimTrace(String prefix, PyObject callback) {
        this.prefix = prefix;
        this.callback = callback;
    }

    public void install() {
        Py.getThreadState().tracefunc = this;
    }

    public static void uninstall() {
        Py.getThreadState().tracefunc = null;
    }

    /** Files whose lines are not steps: code that only one task at a time runs in the scenario, on data nothing else uses. */
    private static final HashSet<String> SKIP = new HashSet<String>();

    public static void skip(String name) {
        SKIP.add(name);
    }

    private static boolean skipped(String name) {
        for (String s : SKIP) {
            if (name.contains(s)) {
                return true;
            }
        }
        return false;
    }

    private BitSet bits(PyFrame f) {
        BitSet b = files.get(f.f_code);
        if (b == null) {
            String name = f.f_code.co_filename;
            if (name != null && name.contains(prefix) && !skipped(name)) {
                synchronized (lines) {
                    b = lines.get(name);
                    if (b == null) {
                        b = new BitSet();
                        lines.put(name, b);
                    }
                }
            } else {
                b = NONE;
            }
            files.put(f.f_code, b);
        }
        return b;
    }

    /** Methods that Jython's built-in types may call while holding a Java monitor (repr of a list, say):
        switching tasks inside one could block a task where the scheduler cannot see it. */
    private static final HashSet<String> ATOMIC = new HashSet<String>(java.util.Arrays.asList("__repr__", "__str__", "__unicode__", "__cmp__", "__eq__", "__ne__",
        "__lt__", "__le__", "__gt__", "__ge__", "__hash__", "__nonzero__"));
    private PyFrame atomic;

    public TraceFunction traceCall(PyFrame f) {
        BitSet b = bits(f);
        if (b == NONE) {
            return null;
        }
        if (atomic == null && ATOMIC.contains(f.f_code.co_name)) {
            atomic = f;
        }
        tick();
        return this;
    }

    private static final java.io.PrintStream DUMP = dump();

    /** VERIF_LINES=file writes every line executed to that file, for debugging. */
    private static java.io.PrintStream dump() {
        String name = System.getenv("VERIF_LINES");
        try {
            return name == null ? null : new java.io.PrintStream(new java.io.BufferedOutputStream(new java.io.FileOutputStream(name)));
        } catch (java.io.IOException e) {
            return null;
        }
    }

    public TraceFunction traceLine(PyFrame f, int line) {
        BitSet b = bits(f);
        if (DUMP != null) {
            DUMP.println(f.f_code.co_filename.substring(f.f_code.co_filename.lastIndexOf('/') + 1) + ":" + f.f_code.co_name + ":" + line);
        }
        if (line > 0) {
            b.set(line);
        }
        tick();
        return this;
    }

    private void tick() {
        long n = ++nsteps;
        if (n > maxSteps || dead || (n >= nextLine && atomic == null)) {
            callback.__call__();
        }
    }

    public TraceFunction traceReturn(PyFrame f, PyObject r) {
        if (f == atomic) {
            atomic = null;
        }
        return this;
    }

    public TraceFunction traceException(PyFrame f, PyException e) {
        if (f == atomic) {
            atomic = null;
        }
        return this;
    }

    /** "file" -> number of distinct lines executed so far in this process. */
    public static PyDictionary coverage() {
        PyDictionary d = new PyDictionary();
        synchronized (lines) {
            for (String k : lines.keySet()) {
                StringBuilder s = new StringBuilder();
                BitSet b = lines.get(k);
                for (int i = b.nextSetBit(0); i >= 0; i = b.nextSetBit(i + 1)) {
                    s.append(i).append(' ');
                }
                d.__setitem__(new PyString(k), new PyString(s.toString()));
            }
        }
        return d;
    }
}
