# per-property additions to the manifest (exec'd by mkmanifest.py)
NOTES = {}
NA = {}
