KNOWN = [
 dict(property="C27", what="Polygons.from_data(gaps=[[(0, 0), (0, -12.64), (6.9, 0), (0, 0)]], edge=40.) with the default buffer=1e-10 returns one fragment and loses the gap: GEOS collapses the buffer of so thin a width (about 1 in 400 gap triangles at edge=400, rarer below; never seen with buffer=1e-8)"),
]
