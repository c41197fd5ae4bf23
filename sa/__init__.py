"""Static analyser for PFPE/shipgrav: see DESIGN.md."""
