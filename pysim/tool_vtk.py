"""vfc-vtk with ordered directory listings and the storage seam (shim.c)."""
import os, sys, types

main = None


def load(repo):
    global main
    pkg = types.ModuleType("verificarlo")
    pkg.__path__ = [os.path.join(repo, "src", "tools")]
    sys.modules["verificarlo"] = pkg
    import verificarlo.vtk.__main__ as m
    import numpy, xml.etree.ElementTree, shutil, tempfile
    main = m


def run(w, req):
    import tempfile
    tempfile.tempdir = os.path.join(req["cwd"], "tmp")
    main.main()
