import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.ITLCOverrides;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.*;

/** Attempt(x, d): the value of x, or d when x cannot be evaluated (a field that is not there, a text where a number belongs). */
public class Try implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { Try.class }; }

  @Evaluation(definition = "Attempt", module = "Attempts", warn = false, silent = true)
  public static Value attempt(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0, final TLCState s1,
      final int control, final CostModel cm) {
    try {
      Value v = tool.eval(args[0], c, s0, s1, control, cm);
      v.deepNormalize();
      return v;
    } catch (RuntimeException e) {
      if (System.getenv("ATTEMPT_DEBUG") != null) System.out.println("@@ATTEMPT " + String.valueOf(e.getMessage()).replace('\n', ' '));
      return tool.eval(args[1], c, s0, s1, control, cm);
    }
  }
}
