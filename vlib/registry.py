HARNESSES = [("box", "verifbox"), ("live", "verifliveview"), ("apply", "verifapply"), ("examples", "list"), ("examples", "chat")]
CHECKS = {
    "C01": ("http_parse", "c01", "model_checking"),
    "C02": ("http_parse", "c02", "model_checking"),
    "C03": ("http_parse", "c03", "model_checking"),
}
for i in list(range(13, 20)) + [29]:
    CHECKS["C%d" % i] = ("ws", "c%d" % i, "model_checking")
for p in ("C06", "C08", "C09", "C10", "C11"):
    CHECKS[p] = ("http_write", p.lower(), "model_checking")
for p in ("C04", "C05", "C07", "C12"):
    CHECKS[p] = ("served", p.lower(), "model_checking")
for p in ("C20", "C21", "C22", "C23", "C24", "C31"):
    CHECKS[p] = ("live", p.lower(), "model_checking")
for p in ("C25", "C26"):
    CHECKS[p] = ("examples", p.lower(), "model_checking")
CHECKS["C27"] = ("changeset", "c27", "model_checking")
CHECKS["C28"] = ("live", "c28", "model_checking")
CHECKS["C30"] = ("holdings", "c30", "model_checking")
