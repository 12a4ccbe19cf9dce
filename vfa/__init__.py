"""Value-flow analysis of the BEEP sources (static; nothing under analysis is imported or executed)."""
