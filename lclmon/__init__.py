"""Runtime-monitoring harness for LightCurveLynx (the lincc-frameworks/tdastro repository)."""
