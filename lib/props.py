"""What each property's check runs (from the catalogue)."""
import catalog

PROPS = {p["id"]: p for p in catalog.ALL if not p["na"]}
