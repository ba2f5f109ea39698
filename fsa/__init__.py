"""fsa - frm static analyser: source-level analyses specific to the frm code base."""
