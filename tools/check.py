#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: runs the registered check of one property."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import importlib, vlib
TABLE = {"C27": "check_session", "C26": "check_report", "C25": "check_editor", "C23": "check_log", "C24": "check_session", "C04": "check_session", "C05": "check_session", "C06": "check_session", "C07": "check_session", "C01": "check_history", "C02": "check_history", "C03": "check_history", "C14": "check_geometry",
         **{p: "check_document" for p in ("C17", "C18", "C19", "C20", "C21", "C22")},
         **{p: "check_mesher" for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16")}}
if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        rc = importlib.import_module(TABLE[pid]).run(pid)
    except vlib.CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e)); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
