package redox;

import java.util.ArrayList;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Fast evaluation of GenLib!Flat and GenLib!DigitsIn. */
public class SeqOverrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { SeqOverrides.class }; }

  @TLAPlusOperator(identifier = "Flat", module = "GenLib", warn = false)
  public static Value flat(Value ss) {
    ArrayList<Value> out = new ArrayList<>();
    for (Value s : ((TupleValue) ss.toTuple()).elems)
      for (Value e : ((TupleValue) s.toTuple()).elems) out.add(e);
    return new TupleValue(out.toArray(new Value[0]));
  }

  @TLAPlusOperator(identifier = "DigitsIn", module = "GenLib", warn = false)
  public static Value digitsIn(Value n, Value radix, Value acc) {
    String t = ((BigVal) n).v.toString(((IntValue) radix).val);
    Value[] tail = ((TupleValue) acc.toTuple()).elems;
    if (tail.length > 0) throw new RuntimeException("DigitsIn with an accumulator");
    Value[] out = new Value[t.length()];
    for (int i = 0; i < out.length; i++) out[i] = IntValue.gen(t.charAt(i));
    return new TupleValue(out);
  }
}
