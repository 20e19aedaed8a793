"""Writes known_findings.json: the repaired defects from /repo's log."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [
 ("adapt_mesh does not", "C40"), ("adaptive accepts", "C40"),
 ("System.ions finds", "C39"), ("multiple ion modes in", "C12"),
 ("System.shims restores", "C17"), ("analyze_static does not call", "C12"),
 ("System.saddle reports", "C11"), ("rfo() does not take", "C11"),
 ("rfo() does not divide", "C11"), ("rfo and System.saddle accept", "C11"), ("solver options of one", "C16"),
 ("Electrode.potential accepts any", "C01"), ("tensor utilities accept any", "C20"), ("with_voltages restores the electrodes", "C08"),
 ("Adjust.next_step", "C36"), ("Adjust.set_move_init", "C36"), ("Adjust.xm_freq_change", "C36"),
 ("Polygons.to_gds clips", "C28"), ("Polygons.to_gds rounds", "C28"), ("Polygons.to_gds writes", "C28"),
 ("System.trajectory accepts", "C35"), ("System.trajectory accelerates", "C35"),
 ("xic_to_list", "C29"), ("Grid.to_xyz", "C23"), ("System.solve accum", "C18"),
 ("System.optimize works", "C16"), ("System.optimize drops", "C16"),
 ("System.group", "C09"), ("with_voltages restores the old rfs", "C08"),
 ("analyze_static varies", "C12"), ("System.minimum and saddle", "C10"),
 ("System.saddle rotates", "C11"), ("Mathieu.init_sol", "C15"),
 ("Mathieu.init_value", "C15"), ("Mathieu exponents", "C14"),
 ("utils.mathieu", "C13"), ("SphericalHarmonics", "C22"),
 ("derivatives_spherical_cartesian", "C22"), ("Polygons.filter", "C26"), ("Polygons.remove_overlaps", "C26"),
 ("Polygons.smooth", "C26"), ("smoothing detects", "C26"), ("Polygons.restrict", "C26"),
 ("rotation_from_matrix", "C30"), ("shear_from_matrix", "C30"),
 ("projection_from_matrix", "C30"), ("decompose_matrix", "C32"),
 ("euler_from_matrix", "C31"), ("scale_matrix", "C33"),
 ("compiled quaternion_", "C33"), ("compiled inverse_matrix", "C33"),
 ("arcball_constrain_to_axis", "C33"), ("angle_between_vectors", "C33"),
 ("unit_vector accepts", "C33"), ("superimposition_matrix (comp", "C32"), ("quaternion_from_matrix (comp", "C31"), ("quaternion_inverse (comp", "C33"), ("quaternion_matrix accepts", "C31"), ("Arcball.setaxes", "C34"),
 ("area_centroid", "C37"), ("System.plot_contour", "C38"), ("Polygons.from_data", "C27"), ("square_pads", "C27"),
]
exec(open(os.path.join(V, "tools", "findings_extra.py")).read()) if os.path.exists(os.path.join(V, "tools", "findings_extra.py")) else None
KNOWN = globals().get("KNOWN", [])
fixed = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode()
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [b for a, b in PROP if a in s]
    assert len(p) == 1, (s, p)
    fixed.append("fixed: property=%s %s %s" % (p[0], h, s))
json.dump(dict(known=KNOWN, fixed=fixed), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
open(os.path.join(V, "known_findings.json"), "a").write("\n")
print(len(fixed))
