import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/**
 * TraceFile!Load: the JSON values on the lines of a file, as a sequence. Like the community
 * modules' ndJsonDeserialize, but without a nesting limit and fast enough for long traces.
 */
public class TraceFile {
    private static final ConcurrentHashMap<String, Value> FILES = new ConcurrentHashMap<>();
    private static final ConcurrentHashMap<String, UniqueString> NAMES = new ConcurrentHashMap<>();
    private static final ConcurrentHashMap<String, Value> STRINGS = new ConcurrentHashMap<>();
    private static final IntValue[] INTS = new IntValue[256];
    static {
        for (int i = 0; i < 256; i++) {
            INTS[i] = IntValue.gen(i);
        }
    }

    public static Value Load(Value path) {
        return FILES.computeIfAbsent(((StringValue) path).val.toString(), TraceFile::read);
    }

    private static Value read(String path) {
        try {
            final byte[] b = Files.readAllBytes(Paths.get(path));
            final List<int[]> lines = new ArrayList<>();
            int start = 0;
            for (int i = 0; i <= b.length; i++) {
                if (i == b.length || b[i] == '\n') {
                    if (i > start) {
                        lines.add(new int[] {start, i});
                    }
                    start = i + 1;
                }
            }
            final Value[] vs = new Value[lines.size()];
            // one after another: TLC's intern table is not made for concurrent use before it runs
            for (int i = 0; i < vs.length; i++) {
                final TraceFile p = new TraceFile(b, lines.get(i)[0], lines.get(i)[1]);
                vs[i] = p.value();
                p.space();
                if (p.at != p.end) {
                    throw p.error();
                }
            }
            return new TupleValue(vs);
        } catch (java.io.IOException e) {
            throw new RuntimeException(e);
        }
    }

    private final byte[] b;
    private int at;
    private final int end;

    private TraceFile(byte[] b, int at, int end) {
        this.b = b;
        this.at = at;
        this.end = end;
    }

    private RuntimeException error() {
        return new RuntimeException("TraceFile: malformed JSON at byte " + at);
    }

    private void space() {
        while (at < end && (b[at] == ' ' || b[at] == '\t' || b[at] == '\r')) {
            at++;
        }
    }

    private int peek() {
        space();
        if (at >= end) {
            throw error();
        }
        return b[at];
    }

    private void expect(String s) {
        for (int i = 0; i < s.length(); i++) {
            if (at >= end || b[at] != s.charAt(i)) {
                throw error();
            }
            at++;
        }
    }

    private Value value() {
        final int c = peek();
        switch (c) {
        case '{':
            return object();
        case '[':
            return array();
        case '"':
            return STRINGS.computeIfAbsent(string(), StringValue::new);
        case 't':
            expect("true");
            return BoolValue.ValTrue;
        case 'f':
            expect("false");
            return BoolValue.ValFalse;
        default:
            return number();
        }
    }

    private Value number() {
        final boolean neg = b[at] == '-';
        if (neg) {
            at++;
        }
        long n = 0;
        final int first = at;
        while (at < end && b[at] >= '0' && b[at] <= '9') {
            n = n * 10 + (b[at++] - '0');
            if (n > Integer.MAX_VALUE) {
                throw error();
            }
        }
        if (at == first) {
            throw error();
        }
        return !neg && n < 256 ? INTS[(int) n] : IntValue.gen((int) (neg ? -n : n));
    }

    private Value array() {
        at++;
        final ArrayList<Value> vs = new ArrayList<>();
        if (peek() == ']') {
            at++;
            return new TupleValue(new Value[0]);
        }
        while (true) {
            vs.add(value());
            final int c = peek();
            at++;
            if (c == ']') {
                return new TupleValue(vs.toArray(new Value[0]));
            }
            if (c != ',') {
                throw error();
            }
        }
    }

    private Value object() {
        at++;
        final ArrayList<UniqueString> names = new ArrayList<>();
        final ArrayList<Value> vs = new ArrayList<>();
        if (peek() == '}') {
            at++;
        } else {
            while (true) {
                if (peek() != '"') {
                    throw error();
                }
                names.add(NAMES.computeIfAbsent(string(), UniqueString::of));
                if (peek() != ':') {
                    throw error();
                }
                at++;
                vs.add(value());
                final int c = peek();
                at++;
                if (c == '}') {
                    break;
                }
                if (c != ',') {
                    throw error();
                }
            }
        }
        final RecordValue r = new RecordValue(names.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
        r.normalize();
        return r;
    }

    private String string() {
        at++;
        final int first = at;
        while (at < end && b[at] != '"') {
            if (b[at] == '\\') {
                return escaped(first);
            }
            at++;
        }
        if (at >= end) {
            throw error();
        }
        return new String(b, first, at++ - first, StandardCharsets.UTF_8);
    }

    private String escaped(int first) {
        final StringBuilder sb = new StringBuilder(new String(b, first, at - first, StandardCharsets.UTF_8));
        while (at < end && b[at] != '"') {
            if (b[at] == '\\') {
                final int c = b[at + 1];
                at += 2;
                final int i = "\"\\/bfnrt".indexOf(c);
                if (i >= 0) {
                    sb.append("\"\\/\b\f\n\r\t".charAt(i));
                } else if (c == 'u') {
                    sb.append((char) Integer.parseInt(new String(b, at, 4, StandardCharsets.US_ASCII), 16));
                    at += 4;
                } else {
                    throw error();
                }
            } else {
                final int from = at;
                while (at < end && b[at] != '"' && b[at] != '\\') {
                    at++;
                }
                sb.append(new String(b, from, at - from, StandardCharsets.UTF_8));
            }
        }
        if (at >= end) {
            throw error();
        }
        at++;
        return sb.toString();
    }
}
