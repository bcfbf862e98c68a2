"""nbcsa: static analysis of nb-coin/new-bitcoin (see /verif/DESIGN.md)."""
