"""Static value-flow analyser for NREL/rdtools (stdlib only; never imports the analysed code)."""
