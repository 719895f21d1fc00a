package kf;

import tlc2.overrides.ITLCOverrides;

/** Index class: -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:kf.Overrides */
public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { RatOps.class };
    }
}
