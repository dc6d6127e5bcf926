"""symx: symbolic execution of the real sunwhere code (see /verif/DESIGN.md)."""
