package vf;
public class Overrides implements tlc2.overrides.ITLCOverrides {
    @Override public Class[] get() { return new Class[] { Ops.class }; }
}
