"""Runtime monitors deciding the properties in properties.jsonl; see DESIGN.md."""
