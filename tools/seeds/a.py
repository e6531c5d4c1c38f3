SEEDS=[
dict(id="p02-merge-store",prop="P02",edits=[("extern/dset/dset.h","""            if (!mData[id1].compare_exchange_strong(oldEntry, newEntry))
                continue;
""","""            if ((uint32_t) mData[id1] != id1)
                continue;
            mData[id1] = newEntry;
""")],
needs="two iterations that merge the same set into different ones, the second storing between the first's test and store",
breaks="a merge of two sets is lost when two threads attach the same root at once: connected points end in different clusters",
demo='''
# run the union-find itself on eight threads until a merge is lost
import os, subprocess, sys, tempfile
code = r"""
#include <atomic>
#include <cstdint>
#include <thread>
#include <vector>
#include <dset/dset.h>
int main()
{
    const int T = 6, N = 64;
    for (int round = 0; round < 12000; ++round)
    {
        DisjointSets d(N);
        std::atomic<int> go(0);
        std::vector<std::thread> t;
        for (int k = 0; k < T; ++k)
            t.emplace_back([&, k]() {
                ++go;
                while (go < T) std::this_thread::yield();
                for (int i = 0; i + 1 < N; ++i)
                    if ((i % T) == k) { d.unite(i, i + 1); d.unite(N - 1 - i, N - 2 - i); }
            });
        for (auto& x : t) x.join();
        for (int i = 1; i < N; ++i)
            if (!d.same(0, i)) return 1;
    }
    return 0;
}
"""
with tempfile.TemporaryDirectory() as d:
    open(d + "/t.cc", "w").write(code)
    subprocess.run(["g++", "-O1", "-std=c++17", "-pthread", "-Iextern", d + "/t.cc", "-o", d + "/t"], check=True)
    try:
        r = subprocess.run([d + "/t"], timeout=90).returncode
    except subprocess.TimeoutExpired:
        r = 0
print("merge lost" if r else "ok")
sys.exit(1 if r else 0)
'''),
dict(id="p04-plane-distance",prop="P04",edits=[("freud/box/Box.h","dist.x = m_L.x / std::sqrt(float(1.0) + m_xy * m_xy + (m_xy * m_yz - m_xz) * (m_xy * m_yz - m_xz));",
"dist.x = m_L.x / std::sqrt(float(1.0) + m_xy * m_xy + m_xz * m_xz);")],
needs="a box with both xy and yz tilts of opposite sign to xz and a radius close to half the distance of its faces, or a link-cell search there",
breaks="the distance between the x faces of a tilted box is overestimated, so images at the edge of the search are missed",
demo='''
import sys, numpy as np, freud
bad = 0
for xy, xz, yz in ((-0.5, 0.25, 0.5), (-1.0, 0.8, 1.0), (1.2, -1.0, 0.9)):
    box = freud.box.Box(8, 8, 8, xy, xz, yz)
    p = np.ascontiguousarray(box.make_absolute(np.random.RandomState(2).rand(400, 3)).astype(np.float32))
    v = np.array(np.meshgrid(*[range(-3, 4)] * 3)).reshape(3, -1).T @ box.to_matrix().T
    h = np.linalg.inv(box.to_matrix())
    half = min(1 / np.linalg.norm(r) for r in h) / 2
    for r in (0.45 * half,):
        d = np.linalg.norm(p[None, :, None] - p[:, None, None] + v[None, None], axis=-1)
        want = int(((d < r) & (d > 1e-3)).sum())
        for q in (freud.locality.AABBQuery(box, p), freud.locality.LinkCell(box, p, cell_width=r)):
            try:
                got = len(q.query(p, dict(r_max=r, exclude_ii=True)).toNeighborList())
            except RuntimeError:
                got = -1
            if abs(got - want) > 0:
                print(type(q).__name__, (xy, xz, yz), r, got, want); bad = 1
sys.exit(bad)
'''),
dict(id="p08-emptied-counts",prop="P08",edits=[("freud/locality/NeighborList.cc","""    m_vectors = new_vectors;
    m_segments_counts_updated = false;
    return old_size - new_size;""","""    m_vectors = new_vectors;
    m_segments_counts_updated = m_segments_counts_updated && new_size == 0;
    return old_size - new_size;""")],
needs="reading the counts of a list, filtering away all of its bonds, then reading them again",
breaks="an emptied list still reports the counts it had before",
demo='''
import sys, numpy as np, freud
rs = np.random.RandomState(0)
box, p = freud.box.Box.cube(6), (rs.rand(30, 3) * 6 - 3).astype(np.float32)
a = freud.locality.AABBQuery(box, p).query(p, dict(r_max=2.0, exclude_ii=True)).toNeighborList()
a.neighbor_counts
b = a.copy()
b.filter(np.zeros(len(b), bool))
b.neighbor_counts, b.segments
ok = True
for x in (a, b):
    ok &= np.array_equal(x.neighbor_counts, np.bincount(x.query_point_indices, minlength=30))
sys.exit(0 if ok else 1)
'''),
dict(id="p10-skip-plane",prop="P10",edits=[("freud/locality/PeriodicBuffer.cc","if (!include_input_points && i == 0 && j == 0 && k == 0)","if (!include_input_points && i == 0 && j == 0 && (k == 0 || images.x > images.y + 1))")],
needs="a buffer that is at least two boxes wider along x than along y, in 3D, without the input points",
breaks="the images straight above and below the box are missing",
demo='''
import sys, numpy as np, freud
box, p = freud.box.Box(4, 8, 8), np.array([[0.5, 1, 2], [-1, 2, -3]], np.float32)
n = {}
for inc in (True, False):
    b = freud.locality.PeriodicBuffer()
    b.compute((box, p), buffer=[9, 3, 5], include_input_points=inc)
    n[inc] = len(b.buffer_ids)
print(n)
sys.exit(0 if n[True] - n[False] == 2 else 1)
'''),
dict(id="p12-matrix-tilt",prop="P12",edits=[("freud/box.py","yz = (np.dot(v1, v2) - a2x * a3x) / (Ly * Lz)","yz = (np.dot(v1, v2) - a2x * xz * Lz) / (Ly * Lz) if xz >= 0 else (np.dot(v1, v2) - a2x * abs(a3x)) / (Ly * Lz)")],
needs="a matrix whose third vector leans towards -x while the second leans along x",
breaks="from_matrix gives a wrong yz tilt",
demo='''
import sys, numpy as np, freud
b = freud.box.Box(3, 4, 5, 0.5, -0.25, 0.2)
c = freud.box.Box.from_matrix(b.to_matrix())
sys.exit(0 if np.allclose(b.to_box_params(), c.to_box_params(), atol=1e-5) else 1)
'''),
]
