From fdf139fb5e18bf3c0b8e695b57f075737478abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 01/29] fix: Voxelize must not emit shell voxels left of the
 requested region

---
 binvox/voxelize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 2b282c2..9beea2d 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -270,7 +270,9 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 				}
 				k := Key{xi, yi, zi}
 				if len(set[k]) > 0 { // triangles intersect this voxel.
-					setVoxelFunc(k)
+					if xi >= 0 { // Don't emit voxels before the subregion of interest.
+						setVoxelFunc(k)
+					}
 					var inCount, outCount int
 					for _, tri := range set[k] {
 						if _, ok := seenTris[tri]; ok {
-- 
2.43.0


From e2ec633c7577272385d1052cf895d5f228a652f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 02/29] fix: find both ends of a slice through a triangle's
 vertex

---
 binvox/voxelize.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 9beea2d..d0ccf65 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -141,10 +141,13 @@ func intersectZPlane(mesh *gl.Mesh, z float64) (result []*intersectionPair) {
 func intersectTriZPlane(t *gl.Triangle, z float64) (*intersectionPair, bool) {
 	v1, ok1 := intersectSegment(t.V1.Position, t.V2.Position, z)
 	v2, ok2 := intersectSegment(t.V2.Position, t.V3.Position, z)
+	v3, ok3 := intersectSegment(t.V3.Position, t.V1.Position, z)
+	if ok1 && ok2 && ok3 { // A vertex lies on the plane and two intersections coincide.
+		ok2 = v1.Distance(v2) >= v1.Distance(v3)
+	}
 	if ok1 && ok2 {
 		return &intersectionPair{v1: v1, v2: v2, tri: t}, true
 	}
-	v3, ok3 := intersectSegment(t.V3.Position, t.V1.Position, z)
 	if ok1 && ok3 {
 		return &intersectionPair{v1: v1, v2: v3, tri: t}, true
 	}
-- 
2.43.0


From 526b900eba3ebcfdcffb915e768788e653a2e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 03/29] fix: count exact scanline crossings so that fills
 neither leak between solids nor leave holes

---
 binvox/voxelize.go | 109 +++++++++++++++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 33 deletions(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index d0ccf65..eb7a3f8 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"math"
+	"sort"
 	"sync"
 
 	gl "github.com/fogleman/fauxgl"
@@ -116,8 +117,12 @@ func (b *BinVOX) voxelizeZ(mesh *gl.Mesh, zi int, dz, vpmm float64, setVoxelFunc
 		// log.Printf("voxelizeZ(%v): pair=%#v", zi, pair)
 		b.rasterizeShellPair(pair, zi, z, dz, vpmm, set, xMinMax)
 	}
+	crossings := make(crossingMap)
+	for _, t := range mesh.Triangles {
+		b.addCrossings(t, z, vpmm, crossings)
+	}
 	// log.Printf("voxelizeZ(%v): flood filling %v raster lines", zi, len(xMinMax))
-	b.floodFill(zi, set, setVoxelFunc, xMinMax)
+	b.floodFill(zi, set, setVoxelFunc, xMinMax, crossings)
 }
 
 // intersectionPair represents an intersection between a triangle and the z-plane.
@@ -259,52 +264,90 @@ func (x xMinMaxMap) update(xi, yi int) {
 	}
 }
 
+// crossing is a point where the raster line through the voxel centers crosses the mesh.
+// The centers are taken epsilon early such that rounding does not decide about
+// crossings right on them and all subregions of a model agree.
+type crossing struct {
+	x   float64 // in voxels from the origin of the subregion
+	dir int     // 1 when entering the solid, -1 when leaving it
+}
+
+// crossingMap maps the y coordinate to the crossings of that y scanline.
+type crossingMap map[int][]crossing
+
+// addCrossings adds the crossings of the triangle with the raster lines at height z.
+// Vertices and endpoints lying exactly on a line count as below it such that
+// each crossing of a closed mesh is counted exactly once.
+func (b *BinVOX) addCrossings(t *gl.Triangle, z, vpmm float64, crossings crossingMap) {
+	var up, down gl.Vector // where the outline of the triangle goes up and down through z
+	var found bool
+	addEdge := func(v0, v1 gl.Vector) {
+		switch {
+		case v0.Z <= z && v1.Z > z:
+			up = v0.Add(v1.Sub(v0).MulScalar((z - v0.Z) / (v1.Z - v0.Z)))
+			found = true
+		case v0.Z > z && v1.Z <= z: // Same operands as the neighbor triangle.
+			down = v1.Add(v0.Sub(v1).MulScalar((z - v1.Z) / (v0.Z - v1.Z)))
+		}
+	}
+	addEdge(t.V1.Position, t.V2.Position)
+	addEdge(t.V2.Position, t.V3.Position)
+	addEdge(t.V3.Position, t.V1.Position)
+	if !found {
+		return
+	}
+
+	x1, y1 := vpmm*(down.X-b.TX), vpmm*(down.Y-b.TY)
+	x2, y2 := vpmm*(up.X-b.TX), vpmm*(up.Y-b.TY)
+	dir := -1
+	if y1 > y2 {
+		x1, y1, x2, y2 = x2, y2, x1, y1
+		dir = 1
+	}
+	if y1 >= float64(b.NY) {
+		return
+	}
+	yi := 0
+	if y1 > 1 {
+		yi = int(math.Floor(y1)) - 1
+	}
+	for ; yi < b.NY; yi++ {
+		y := float64(yi) + 0.5 - epsilon
+		if !(y < y2) {
+			break
+		}
+		if y >= y1 {
+			crossings[yi] = append(crossings[yi], crossing{x: x1 + (x2-x1)*(y-y1)/(y2-y1), dir: dir})
+		}
+	}
+}
+
 // floodFill flood-fills the internal voxels within the voxel shell.
-func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax xMinMaxMap) {
+func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax xMinMaxMap, crossings crossingMap) {
 	var wg sync.WaitGroup
 	for yi, mm := range xMinMax { // yi >= 0 && yi < b.NY
 		wg.Add(1)
-		go func(yi, min, max int) {
-			var inside bool
-			seenTris := make(map[*gl.Triangle]struct{}) // Only process each triangle once.
+		go func(yi, min, max int, cs []crossing) {
+			sort.Slice(cs, func(i, j int) bool { return cs[i].x < cs[j].x })
+			var winding int // positive inside the solid
 			for xi := min; xi <= max; xi++ {
 				if xi >= b.NX { // Don't care past the subregion of interest.
 					break
 				}
-				k := Key{xi, yi, zi}
-				if len(set[k]) > 0 { // triangles intersect this voxel.
-					if xi >= 0 { // Don't emit voxels before the subregion of interest.
-						setVoxelFunc(k)
-					}
-					var inCount, outCount int
-					for _, tri := range set[k] {
-						if _, ok := seenTris[tri]; ok {
-							continue
-						}
-						seenTris[tri] = struct{}{}
-						switch d := tri.V1.Normal.Dot(gl.V(-1, 0, 0)); {
-						case d > epsilon:
-							inCount++
-						case d < -epsilon:
-							outCount++
-						default:
-						}
-					}
-					switch {
-					case inCount > outCount:
-						inside = true
-					case inCount < outCount:
-						inside = false
-						// otherwise, keep previous value
-					}
+				for len(cs) > 0 && cs[0].x < float64(xi)+0.5-epsilon {
+					winding += cs[0].dir
+					cs = cs[1:]
+				}
+				if xi < 0 { // Don't emit voxels before the subregion of interest.
 					continue
 				}
-				if inside && xi >= 0 {
+				k := Key{xi, yi, zi}
+				if len(set[k]) > 0 || winding > 0 { // triangles intersect or surround this voxel.
 					setVoxelFunc(k)
 				}
 			}
 			wg.Done()
-		}(yi, mm.min, mm.max)
+		}(yi, mm.min, mm.max, crossings[yi])
 	}
 	wg.Wait()
 }
-- 
2.43.0


From f1a5cb9939d650cf024102675d2d3012b2d9e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 04/29] fix: binvox.Write reports header write errors and
 publishes only complete files

---
 binvox/write.go    | 25 +++++++++++------------
 outfile/outfile.go | 51 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 63 insertions(+), 13 deletions(-)
 create mode 100644 outfile/outfile.go

diff --git a/binvox/write.go b/binvox/write.go
index a172bb6..602e74f 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -5,27 +5,22 @@ import (
 	"fmt"
 	"io"
 	"log"
-	"os"
 
 	gl "github.com/fogleman/fauxgl"
+	"github.com/gmlewis/stldice/v4/outfile"
 )
 
 // Write writes a binvox file.
 // sx, sy, sz are the starting indices of the model.
 // nx, ny, nz are the number of voxels to write in each direction (0=all).
 func (b *BinVOX) Write(filename string, sx, sy, sz, nx, ny, nz int) error {
-	f, err := os.Create(filename)
-	if err != nil {
-		return fmt.Errorf("unable to create file %q: %v", filename, err)
-	}
-	n, err := b.write(f, sx, sy, sz, nx, ny, nz)
-	if err != nil {
-		f.Close()
+	var n int64
+	if err := outfile.Write(filename, func(w io.Writer) (err error) {
+		n, err = b.write(w, sx, sy, sz, nx, ny, nz)
+		return err
+	}); err != nil {
 		return fmt.Errorf("Write(%q): %v", filename, err)
 	}
-	if err := f.Close(); err != nil {
-		return fmt.Errorf("unable to close %q: %v", filename, err)
-	}
 	log.Printf("Done writing %v white voxels to file %q.", n, filename)
 	return nil
 }
@@ -39,7 +34,9 @@ data
 
 func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(b.WhiteVoxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -55,7 +52,9 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go b.encode(ch, b.WhiteVoxels, sx, sy, sz, nx, ny, nz)
diff --git a/outfile/outfile.go b/outfile/outfile.go
new file mode 100644
index 0000000..03fba8e
--- /dev/null
+++ b/outfile/outfile.go
@@ -0,0 +1,51 @@
+// Package outfile writes output files that appear under their final name
+// only when they have been written completely.
+package outfile
+
+import (
+	"io"
+	"os"
+)
+
+// Write calls write with a temporary file next to filename. If everything
+// has been written to disk successfully, that file replaces filename.
+// Otherwise, filename remains as it was.
+// Anything but a regular file (like a device or a pipe) is written directly.
+func Write(filename string, write func(w io.Writer) error) error {
+	if fi, err := os.Lstat(filename); err == nil && !fi.Mode().IsRegular() {
+		f, err := os.OpenFile(filename, os.O_WRONLY|os.O_TRUNC, 0)
+		if err != nil {
+			return err
+		}
+		if err := write(f); err != nil {
+			f.Close()
+			return err
+		}
+		return f.Close()
+	}
+
+	tmpName := filename + ".tmp"
+	f, err := os.Create(tmpName)
+	if err != nil {
+		return err
+	}
+	if err := write(f); err != nil {
+		f.Close()
+		os.Remove(tmpName)
+		return err
+	}
+	if err := f.Sync(); err != nil {
+		f.Close()
+		os.Remove(tmpName)
+		return err
+	}
+	if err := f.Close(); err != nil {
+		os.Remove(tmpName)
+		return err
+	}
+	if err := os.Rename(tmpName, filename); err != nil {
+		os.Remove(tmpName)
+		return err
+	}
+	return nil
+}
-- 
2.43.0


From 7a49b7eccce59f26a5ff8f5e0df2b20434c5ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 05/29] fix: vshell.Write reports header write errors, ends its
 encoder and publishes only complete files

---
 vshell/write.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/vshell/write.go b/vshell/write.go
index bcd6556..f887301 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -6,25 +6,21 @@ import (
 	"fmt"
 	"io"
 	"log"
-	"os"
+
+	"github.com/gmlewis/stldice/v4/outfile"
 )
 
 // Write writes a vshell file.
 // sx, sy, sz are the starting indices of the model.
 // nx, ny, nz are the number of voxels to write in each direction (0=all).
 func (b *VShell) Write(filename string, sx, sy, sz, nx, ny, nz int) error {
-	f, err := os.Create(filename)
-	if err != nil {
-		return fmt.Errorf("unable to create file %q: %v", filename, err)
-	}
-	n, err := b.write(f, sx, sy, sz, nx, ny, nz)
-	if err != nil {
-		f.Close()
+	var n int64
+	if err := outfile.Write(filename, func(w io.Writer) (err error) {
+		n, err = b.write(w, sx, sy, sz, nx, ny, nz)
+		return err
+	}); err != nil {
 		return fmt.Errorf("Write(%q): %v", filename, err)
 	}
-	if err := f.Close(); err != nil {
-		return fmt.Errorf("unable to close %q: %v", filename, err)
-	}
 	log.Printf("Done writing %v white voxels to file %q.", n, filename)
 	return nil
 }
@@ -38,7 +34,9 @@ data
 
 func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(vs.Voxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -60,10 +58,16 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go vs.encode(ch, lookup, sx, sy, sz, nx, ny, nz)
+	defer func() { // Let the encoder end even if writing failed.
+		for range ch {
+		}
+	}()
 
 	var numVoxels int64
 	for v := range ch {
-- 
2.43.0


From acdfacabdc08020462b93052bf69826817bc8c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 06/29] fix: vshell files keep voxels without neighbors and
 long runs of empty voxels

---
 vshell/read.go   |  4 +++-
 vshell/vshell.go |  2 +-
 vshell/write.go  | 24 ++++++++++++++++--------
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/vshell/read.go b/vshell/read.go
index 4a27bb4..7945ee1 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -153,6 +153,8 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 			count = uint16(c)
 		}
 
+		n := NeighborBitMap(value) &^ x0y0z0 // x0y0z0 marks a voxel without neighbors.
+
 		// The y-coordinate runs fastest, then the z-coordinate, then the x-coordinate.
 		// Note that we are only saving the white pixels.
 		for i := 0; i < int(count); i++ {
@@ -160,7 +162,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
 			if value != 0 && value != 0xffffffff && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
-				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
+				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: n})
 			}
 			yi++
 			if yi >= ny {
diff --git a/vshell/vshell.go b/vshell/vshell.go
index 3996f63..141cb30 100644
--- a/vshell/vshell.go
+++ b/vshell/vshell.go
@@ -120,7 +120,7 @@ const ( // NeighborBitMap values
 	X0Y_1Z0
 	X0Y_1Z1
 	X0Y0Z_1
-	x0y0z0 // Unused - the center voxel - but needed as a place-holder for the bit pattern.
+	x0y0z0 // The center voxel - only used in files to mark a voxel without neighbors.
 	X0Y0Z1
 	X0Y1Z_1
 	X0Y1Z0
diff --git a/vshell/write.go b/vshell/write.go
index f887301..32a57dc 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -72,15 +72,17 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 	var numVoxels int64
 	for v := range ch {
 		if v.value == 0 || v.value == 0xffffffff {
-			if err := binary.Write(w, binary.LittleEndian, v.value); err != nil {
-				return 0, fmt.Errorf("unable to write to buf: %v", err)
-			}
-			if err := binary.Write(w, binary.LittleEndian, v.count); err != nil {
-				return 0, fmt.Errorf("unable to write to buf: %v", err)
+			for count := v.count; count > 0; count -= maxEmpty {
+				if err := binary.Write(w, binary.LittleEndian, v.value); err != nil {
+					return 0, fmt.Errorf("unable to write to buf: %v", err)
+				}
+				if err := binary.Write(w, binary.LittleEndian, uint16(min(count, maxEmpty))); err != nil {
+					return 0, fmt.Errorf("unable to write to buf: %v", err)
+				}
 			}
 			continue
 		}
-		numVoxels += int64(v.count)
+		numVoxels += v.count
 		if numMax := v.count / 255; numMax > 0 {
 			if _, err := w.Write(bytes.Repeat([]byte{
 				byte(v.value & 0xff),
@@ -111,12 +113,15 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 // rle represents the run-length encoding for voxel values.
 type rle struct {
 	value uint32
-	count uint16
+	count int64
 }
 
+// maxEmpty is the longest run of empty voxels that fits into the file format.
+const maxEmpty = 0xffff
+
 func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny, nz int) {
 	var value uint32
-	var count uint16
+	var count int64
 	for xi := sx; xi < sx+nx; xi++ {
 		for zi := sz; zi < sz+nz; zi++ {
 			for yi := sy; yi < sy+ny; yi++ {
@@ -124,6 +129,9 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 				var newValue uint32
 				if v, ok := lookup[k]; ok {
 					newValue = uint32(vs.Voxels[v].N)
+					if newValue == 0 { // A voxel without neighbors is not an empty voxel.
+						newValue = uint32(x0y0z0)
+					}
 				}
 				if newValue != value {
 					if count > 0 { // To account for first value being sent.
-- 
2.43.0


From f2ef4e6fbabe25236a127821e413971a02590366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 07/29] fix: windowed reads return only the requested voxels

---
 binvox/read.go | 2 +-
 vshell/read.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/binvox/read.go b/binvox/read.go
index ae9d2f5..930b8ee 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -152,7 +152,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value == 1 && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels[Key{X: xi, Y: yi, Z: zi}] = struct{}{}
 			}
 			yi++
diff --git a/vshell/read.go b/vshell/read.go
index 7945ee1..635ce9e 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -161,7 +161,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value != 0 && value != 0xffffffff && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: n})
 			}
 			yi++
-- 
2.43.0


From 6c6adf5af30119825b4272ed91fb60e805ffe3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 08/29] fix: keep the neighbors that vshell.Add finds while the
 shell grows

---
 vshell/merge.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index ad161c7..db4208b 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -88,7 +88,7 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	}
 
 	log.Printf("processing %v voxels...", len(lookup))
-	var shellCount int
+	var newShell []VShVoxel // Appended below because old points into vs.Voxels.
 	toRemove := make(lookupMap)
 	for k := range lookup {
 		neighbors, toCheck := lookup.findNeighbors(k, old)
@@ -106,10 +106,10 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 			continue
 		}
 
-		shellCount++
-		vs.Voxels = append(vs.Voxels, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
+		newShell = append(newShell, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
 	}
-	log.Printf("added %v voxels to shell", shellCount)
+	vs.Voxels = append(vs.Voxels, newShell...)
+	log.Printf("added %v voxels to shell", len(newShell))
 	if len(toRemove) > 0 {
 		log.Printf("removing %v voxels from old shell...", len(toRemove))
 		newVoxels := make([]VShVoxel, 0, len(vs.Voxels)-len(toRemove))
-- 
2.43.0


From 617566a6b41e583fa272319bc0aadfa154e0a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 09/29] fix: empty models neither fail nor misplace a vshell
 merge

---
 vshell/merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index db4208b..b2444a2 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -22,7 +22,7 @@ func Merge(binfiles []string) (*VShell, error) {
 			if vs, err = New(bv); err != nil {
 				return nil, fmt.Errorf("New: %v", err)
 			}
-		} else {
+		} else if len(bv.WhiteVoxels) > 0 { // Empty models have neither dimensions nor VPMM.
 			if err := vs.Add(bv); err != nil {
 				return nil, fmt.Errorf("Add: %v", err)
 			}
@@ -41,6 +41,11 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 		return fmt.Errorf("empty vs or bv")
 	}
 	var dx, dy, dz int
+	if len(vs.Voxels) == 0 && len(bv.WhiteVoxels) > 0 { // An empty shell does not restrict the placement.
+		vs.NX, vs.NY, vs.NZ = bv.NX, bv.NY, bv.NZ
+		vs.TX, vs.TY, vs.TZ = bv.TX, bv.TY, bv.TZ
+		vs.Scale = bv.Scale
+	}
 	if len(vs.Voxels) > 0 {
 		if dx, dy, dz, err = vs.update(bv); err != nil {
 			return err
-- 
2.43.0


From 048606ad7dc900b2fe34a9453992e7b9ff474256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 10/29] fix: vshell merges models at any mutual offset

---
 vshell/merge.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index b2444a2..1a85a33 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -3,6 +3,7 @@ package vshell
 import (
 	"fmt"
 	"log"
+	"math"
 
 	"github.com/gmlewis/stldice/v4/binvox"
 )
@@ -133,37 +134,38 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 // the addition of the BinVOX model.
 func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 	vpmm := vs.VoxelsPerMM()
-	if int(vpmm) != int(bv.VoxelsPerMM()) { // Course test for large discrepancies
+	if math.Abs(vpmm-bv.VoxelsPerMM()) > 1e-3*vpmm { // Course test for large discrepancies
 		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
 	}
 
-	dx = int((bv.TX - vs.TX) * vpmm)
-	dy = int((bv.TY - vs.TY) * vpmm)
-	dz = int((bv.TZ - vs.TZ) * vpmm)
-	if bv.TX < vs.TX {
+	dx = int(math.Round((bv.TX - vs.TX) * vpmm))
+	dy = int(math.Round((bv.TY - vs.TY) * vpmm))
+	dz = int(math.Round((bv.TZ - vs.TZ) * vpmm))
+	// Along each axis, either the new or the old voxels move.
+	moveX, moveY, moveZ := max(-dx, 0), max(-dy, 0), max(-dz, 0)
+	dx, dy, dz = max(dx, 0), max(dy, 0), max(dz, 0)
+	if moveX > 0 {
 		vs.TX = bv.TX
-	} else {
-
 	}
-	if bv.TY < vs.TY {
+	if moveY > 0 {
 		vs.TY = bv.TY
 	}
-	if bv.TZ < vs.TZ {
+	if moveZ > 0 {
 		vs.TZ = bv.TZ
 	}
 
-	if dx >= 0 && dy >= 0 && dz >= 0 {
-		log.Printf("shifting %v new voxels by (%v,%v,%v) to merge with shell", len(bv.WhiteVoxels), dx, dy, dz)
+	log.Printf("shifting %v new voxels by (%v,%v,%v) to merge with shell", len(bv.WhiteVoxels), dx, dy, dz)
+	if moveX == 0 && moveY == 0 && moveZ == 0 {
 		return dx, dy, dz, nil
 	}
 
-	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), moveX, moveY, moveZ)
 	beforeVPMM := vs.VoxelsPerMM()
 	// log.Printf("GML: beforeVPMM=%v, before scale=%v", beforeVPMM, vs.Scale)
 	for i := range vs.Voxels {
-		vs.Voxels[i].X -= dx
-		vs.Voxels[i].Y -= dy
-		vs.Voxels[i].Z -= dz
+		vs.Voxels[i].X += moveX
+		vs.Voxels[i].Y += moveY
+		vs.Voxels[i].Z += moveZ
 		if vs.Voxels[i].X >= vs.NX {
 			vs.NX = vs.Voxels[i].X + 1
 		}
@@ -180,10 +182,10 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		vs.Scale *= afterVPMM / beforeVPMM
 		// log.Printf("GML: after scale=%v", vs.Scale)
 	}
-	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), moveX, moveY, moveZ)
 	log.Printf("New shell dimensions are: (%v,%v,%v)", vs.NX, vs.NY, vs.NZ)
 
-	return 0, 0, 0, nil
+	return dx, dy, dz, nil
 }
 
 func (m lookupMap) findNeighbors(k key, old shellMap) (result NeighborBitMap, toCheck []key) {
-- 
2.43.0


From e48d1eb807bfb037ec3043be24fa85e1085e75a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 11/29] fix: voxcut fails when an existing cut cannot be read

---
 binvox/read.go       | 2 +-
 cmd/voxcut/voxcut.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/binvox/read.go b/binvox/read.go
index 930b8ee..0cc2d5e 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -23,7 +23,7 @@ func Read(filename string, sx, sy, sz, nx, ny, nz int) (*BinVOX, error) {
 	log.Printf("Loading file %q...", filename)
 	f, err := os.Open(filename)
 	if err != nil {
-		return nil, fmt.Errorf("unable to open file %q: %v", filename, err)
+		return nil, fmt.Errorf("unable to open file %q: %w", filename, err)
 	}
 	defer f.Close()
 	binVOX, err := read(f, sx, sy, sz, nx, ny, nz)
diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index e499602..2a21417 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -19,6 +19,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"io/fs"
 	"log"
 	"os"
 
@@ -62,10 +63,13 @@ func main() {
 
 	for i := 1; i < flag.NArg(); i++ {
 		cut, err := binvox.Read(flag.Arg(i), *startX, *startY, *startZ, *countX, *countY, *countZ)
-		if err != nil {
+		if errors.Is(err, fs.ErrNotExist) { // Empty models have no file.
 			log.Printf("skipping: %v", err)
 			continue
 		}
+		if err != nil {
+			log.Fatal(err)
+		}
 
 		log.Printf("\n\nCutting voxel model with %q...", flag.Arg(i))
 		base.WhiteVoxels, err = voxcut(base, cut)
-- 
2.43.0


From 609da638accbc722a02cac47208bc025b6a7500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 12/29] fix: voxcut writes vox files that can be read

---
 cmd/voxcut/voxcut.go | 60 +++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 2a21417..43aecd6 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -14,6 +14,7 @@
 package main
 
 import (
+	"bufio"
 	"encoding/binary"
 	"errors"
 	"flag"
@@ -25,6 +26,7 @@ import (
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/outfile"
 )
 
 var (
@@ -92,16 +94,11 @@ func main() {
 
 	if *voxFile != "" {
 		log.Printf("Writing file %q...", *voxFile)
-		f, err := os.Create(*voxFile)
-		if err != nil {
-			log.Fatalf("Unable to create file %v: %v", *voxFile, err)
-		}
-		if err := writeVOX(f, base.WhiteVoxels); err != nil {
+		if err := outfile.Write(*voxFile, func(w io.Writer) error {
+			return writeVOX(w, base.WhiteVoxels, *startX, *startY, *startZ)
+		}); err != nil {
 			log.Fatalf("writeVOX: %v", err)
 		}
-		if err := f.Close(); err != nil {
-			log.Fatalf("Unable to close file %v: %v", *voxFile, err)
-		}
 	}
 
 	if *stlFile != "" {
@@ -173,14 +170,15 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	return newVoxels, nil
 }
 
-// writeVOX writes a vox file from the base voxels.
-func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
+// writeVOX writes a vox file from the base voxels starting at sx, sy, sz.
+func writeVOX(w io.Writer, base binvox.WhiteVoxelMap, sx, sy, sz int) error {
+	f := bufio.NewWriter(w)
 	header := gl.VOXHeader{Magic: [4]byte{'V', 'O', 'X', ' '}, Version: 150}
 	if err := binary.Write(f, binary.LittleEndian, &header); err != nil {
 		return fmt.Errorf("header: %v", err)
 	}
 
-	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + len(base)*4 + 4)}
+	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + 12 + 12 + len(base)*4 + 4)}
 	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
 		return fmt.Errorf("MAIN: %v", err)
 	}
@@ -191,24 +189,15 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 
 	var maxX, maxY, maxZ int
 	for v := range base {
-		if v.X > maxX {
-			maxX = v.X
-		}
-		if v.Y > maxY {
-			maxY = v.Y
-		}
-		if v.Z > maxZ {
-			maxZ = v.Z
-		}
-	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxX)); err != nil {
-		return fmt.Errorf("maxX: %v", err)
+		maxX = max(maxX, v.X-sx)
+		maxY = max(maxY, v.Y-sy)
+		maxZ = max(maxZ, v.Z-sz)
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxY)); err != nil {
-		return fmt.Errorf("maxY: %v", err)
+	if maxX > 255 || maxY > 255 || maxZ > 255 {
+		return fmt.Errorf("model size (%v,%v,%v) exceeds the limit of vox files (256,256,256)", maxX+1, maxY+1, maxZ+1)
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxZ)); err != nil {
-		return fmt.Errorf("maxZ: %v", err)
+	if err := binary.Write(f, binary.LittleEndian, []int32{int32(maxX + 1), int32(maxY + 1), int32(maxZ + 1)}); err != nil {
+		return fmt.Errorf("size: %v", err)
 	}
 
 	chunk = gl.VOXChunk{ID: [4]byte{'X', 'Y', 'Z', 'I'}, ContentBytes: int32(len(base)*4 + 4)}
@@ -226,19 +215,10 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 		// if vc.A >= 0.5 && vc.R+vc.G+vc.B > 1.5 {  // WHAT?!?
 		// 	i = 1
 		// }
-		if err := binary.Write(f, binary.LittleEndian, int32(v.X)); err != nil {
-			return fmt.Errorf("X: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Y)); err != nil {
-			return fmt.Errorf("Y: %v", err)
-		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Z)); err != nil {
-			return fmt.Errorf("Z: %v", err)
-		}
-		i := int32(1)
-		if err := binary.Write(f, binary.LittleEndian, i); err != nil {
-			return fmt.Errorf("I: %v", err)
+		voxel := gl.VOXVoxel{X: uint8(v.X - sx), Y: uint8(v.Y - sy), Z: uint8(v.Z - sz), I: 1}
+		if err := binary.Write(f, binary.LittleEndian, &voxel); err != nil {
+			return fmt.Errorf("voxel: %v", err)
 		}
 	}
-	return nil
+	return f.Flush()
 }
-- 
2.43.0


From b0843499fd36337aa2f9a124208b1ca5f98dfa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 13/29] fix: STL files are written completely or the failure is
 reported

---
 cmd/manifold-mesh/manifold-mesh.go   |  3 ++-
 cmd/marching-cubes/marching-cubes.go |  3 ++-
 cmd/merge-stl/merge-stl.go           |  2 +-
 cmd/svx2stl/main.go                  |  3 ++-
 cmd/voxcut/voxcut.go                 |  3 ++-
 stl/save.go                          | 38 ++++++++++++++++++++++++++++
 6 files changed, 47 insertions(+), 5 deletions(-)
 create mode 100644 stl/save.go

diff --git a/cmd/manifold-mesh/manifold-mesh.go b/cmd/manifold-mesh/manifold-mesh.go
index 75cde21..0a54825 100644
--- a/cmd/manifold-mesh/manifold-mesh.go
+++ b/cmd/manifold-mesh/manifold-mesh.go
@@ -13,6 +13,7 @@ import (
 	"os"
 
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 func main() {
@@ -35,7 +36,7 @@ func main() {
 
 	mesh := model.ManifoldMesh()
 	log.Printf("Writing file %q...", stlFile)
-	if err := mesh.SaveSTL(stlFile); err != nil {
+	if err := stl.Save(stlFile, mesh); err != nil {
 		log.Fatalf("SaveSTL: %v", err)
 	}
 
diff --git a/cmd/marching-cubes/marching-cubes.go b/cmd/marching-cubes/marching-cubes.go
index 694c738..386be88 100644
--- a/cmd/marching-cubes/marching-cubes.go
+++ b/cmd/marching-cubes/marching-cubes.go
@@ -14,6 +14,7 @@ import (
 	"path/filepath"
 
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 func main() {
@@ -36,7 +37,7 @@ func main() {
 
 	mesh := model.MarchingCubes()
 	log.Printf("Writing file %q...", stlFile)
-	if err := mesh.SaveSTL(stlFile); err != nil {
+	if err := stl.Save(stlFile, mesh); err != nil {
 		log.Fatalf("SaveSTL: %v", err)
 	}
 
diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 2b86a6d..71253ec 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -50,7 +50,7 @@ func main() {
 		log.Fatalf("Merge: %v", err)
 	}
 
-	if err := mesh.SaveSTL(outFile); err != nil {
+	if err := stl.Save(outFile, mesh); err != nil {
 		log.Fatalf("SaveSTL: %v", err)
 	}
 
diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 833b2af..959f897 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -22,6 +22,7 @@ import (
 	"strings"
 
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 func main() {
@@ -41,7 +42,7 @@ func main() {
 
 		mesh := model.MarchingCubes()
 		log.Printf("Writing file %q...", stlFile)
-		if err := mesh.SaveSTL(stlFile); err != nil {
+		if err := stl.Save(stlFile, mesh); err != nil {
 			log.Fatalf("SaveSTL: %v", err)
 		}
 	}
diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 43aecd6..abc4af6 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -27,6 +27,7 @@ import (
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
 	"github.com/gmlewis/stldice/v4/outfile"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 var (
@@ -116,7 +117,7 @@ func main() {
 		}
 
 		log.Printf("Writing file %v ...", *stlFile)
-		if err := mesh.SaveSTL(*stlFile); err != nil {
+		if err := stl.Save(*stlFile, mesh); err != nil {
 			log.Fatalf("SaveSTL: %v", err)
 		}
 	}
diff --git a/stl/save.go b/stl/save.go
new file mode 100644
index 0000000..1f62d51
--- /dev/null
+++ b/stl/save.go
@@ -0,0 +1,38 @@
+package stl
+
+import (
+	"bufio"
+	"encoding/binary"
+	"io"
+
+	gl "github.com/fogleman/fauxgl"
+	"github.com/gmlewis/stldice/v4/outfile"
+)
+
+// Save writes the mesh to a binary STL file.
+// Unlike mesh.SaveSTL, it returns an error if the file cannot be written completely.
+func Save(filename string, mesh *gl.Mesh) error {
+	return outfile.Write(filename, func(w io.Writer) error {
+		bw := bufio.NewWriter(w)
+		header := gl.STLHeader{Count: uint32(len(mesh.Triangles))}
+		if err := binary.Write(bw, binary.LittleEndian, &header); err != nil {
+			return err
+		}
+		for _, t := range mesh.Triangles {
+			d := gl.STLTriangle{
+				N:  toFloat32(t.Normal()),
+				V1: toFloat32(t.V1.Position),
+				V2: toFloat32(t.V2.Position),
+				V3: toFloat32(t.V3.Position),
+			}
+			if err := binary.Write(bw, binary.LittleEndian, &d); err != nil {
+				return err
+			}
+		}
+		return bw.Flush()
+	})
+}
+
+func toFloat32(v gl.Vector) [3]float32 {
+	return [3]float32{float32(v.X), float32(v.Y), float32(v.Z)}
+}
-- 
2.43.0


From 7918688c7e55ace6bd04451a2074c500603fcc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 14/29] fix: incomplete STL files are not loaded as empty or
 smaller models

---
 cmd/stl2svx/stl2svx.go                   |  3 +-
 cmd/stldice/stldice.go                   |  3 +-
 stl/load.go                              | 82 ++++++++++++++++++++++++
 stl/stl.go                               |  2 +-
 stl2svx/stl2svx-client/stl2svx-client.go |  4 +-
 5 files changed, 89 insertions(+), 5 deletions(-)
 create mode 100644 stl/load.go

diff --git a/cmd/stl2svx/stl2svx.go b/cmd/stl2svx/stl2svx.go
index eef70ab..0fff72b 100644
--- a/cmd/stl2svx/stl2svx.go
+++ b/cmd/stl2svx/stl2svx.go
@@ -25,6 +25,7 @@ import (
 	"cloud.google.com/go/storage"
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	stlfile "github.com/gmlewis/stldice/v4/stl"
 	"golang.org/x/oauth2/google"
 	"google.golang.org/api/option"
 )
@@ -152,7 +153,7 @@ func generateMR(args []string, dimOnly bool) (ch chan *bvInfo, dimZ int, err err
 
 		for i, arg := range args {
 			log.Printf("generateMR: loading file %q...", arg)
-			mesh, err := gl.LoadSTL(arg)
+			mesh, err := stlfile.Load(arg)
 			if err != nil {
 				log.Fatalf("Unable to load file %q: %v", arg, err)
 			}
diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 030334e..a93af96 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -20,6 +20,7 @@ import (
 
 	gl "github.com/fogleman/fauxgl"
 	"github.com/gmlewis/stldice/v4/binvox"
+	"github.com/gmlewis/stldice/v4/stl"
 )
 
 var (
@@ -61,7 +62,7 @@ func main() {
 	prefixes := map[string]bool{}
 	for _, arg := range flag.Args() {
 		log.Printf("Loading file %q...", arg)
-		mesh, err := gl.LoadSTL(arg)
+		mesh, err := stl.Load(arg)
 		if err != nil {
 			log.Fatalf("Unable to load file %q: %v", arg, err)
 		}
diff --git a/stl/load.go b/stl/load.go
new file mode 100644
index 0000000..75c5d20
--- /dev/null
+++ b/stl/load.go
@@ -0,0 +1,82 @@
+package stl
+
+import (
+	"bufio"
+	"bytes"
+	"encoding/binary"
+	"fmt"
+	"io"
+	"os"
+	"strconv"
+
+	gl "github.com/fogleman/fauxgl"
+)
+
+// Load loads a binary or ASCII STL file.
+// Unlike gl.LoadSTL, it returns an error if the file is incomplete.
+func Load(filename string) (*gl.Mesh, error) {
+	if err := checkComplete(filename); err != nil {
+		return nil, fmt.Errorf("%v: %w", filename, err)
+	}
+	mesh, err := gl.LoadSTL(filename)
+	if err != nil {
+		return nil, err
+	}
+	// Let the bounding box be calculated again as gl.LoadSTL includes
+	// the origin if there are more CPUs than triangles.
+	return gl.NewTriangleMesh(mesh.Triangles), nil
+}
+
+// checkComplete returns an error if the STL file is not complete.
+func checkComplete(filename string) error {
+	f, err := os.Open(filename)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	info, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	r := bufio.NewReader(f)
+	var header gl.STLHeader
+	if err := binary.Read(r, binary.LittleEndian, &header); err != nil {
+		return err
+	}
+	if info.Size() == int64(header.Count)*50+84 {
+		return nil // binary
+	}
+
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
+	var numVertices int
+	var ended bool
+	scanner := bufio.NewScanner(f)
+	for scanner.Scan() {
+		switch fields := bytes.Fields(scanner.Bytes()); {
+		case len(fields) == 0:
+		case bytes.Equal(fields[0], []byte("endsolid")):
+			ended = true
+		case bytes.Equal(fields[0], []byte("solid")):
+			ended = false
+		case bytes.Equal(fields[0], []byte("vertex")):
+			numVertices++
+			if len(fields) != 4 {
+				return fmt.Errorf("bad vertex: %q", scanner.Text())
+			}
+			for _, f := range fields[1:] {
+				if _, err := strconv.ParseFloat(string(f), 64); err != nil {
+					return fmt.Errorf("bad vertex: %q", scanner.Text())
+				}
+			}
+		}
+	}
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+	if !ended || numVertices%3 != 0 {
+		return fmt.Errorf("STL file is incomplete: %w", io.ErrUnexpectedEOF)
+	}
+	return nil
+}
diff --git a/stl/stl.go b/stl/stl.go
index d004dfb..2076b50 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -47,7 +47,7 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 
 // merge merges STL files using the provided addFunc.
 func merge(filename string, addFunc func(mesh *gl.Mesh)) error {
-	mesh, err := gl.LoadSTL(filename)
+	mesh, err := Load(filename)
 	if err != nil {
 		return err
 	}
diff --git a/stl2svx/stl2svx-client/stl2svx-client.go b/stl2svx/stl2svx-client/stl2svx-client.go
index ee60034..de01d0f 100644
--- a/stl2svx/stl2svx-client/stl2svx-client.go
+++ b/stl2svx/stl2svx-client/stl2svx-client.go
@@ -11,7 +11,7 @@ import (
 	"path/filepath"
 	"strings"
 
-	gl "github.com/fogleman/fauxgl"
+	stlfile "github.com/gmlewis/stldice/v4/stl"
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 	"golang.org/x/net/context"
 	"google.golang.org/grpc"
@@ -79,7 +79,7 @@ func main() {
 func loadSTL(args []string) (out []*pb.STLFile, err error) {
 	for i, arg := range args {
 		log.Printf("loadSTL: loading file #%v: %v ...", i, arg)
-		mesh, err := gl.LoadSTL(arg)
+		mesh, err := stlfile.Load(arg)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From da89bd2298ce5d6600d3d66a90a429dc399f5716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 15/29] fix: stl.Merge guards its error and rejects pools
 without workers

---
 stl/stl.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stl/stl.go b/stl/stl.go
index 2076b50..cb42052 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -2,6 +2,7 @@
 package stl
 
 import (
+	"fmt"
 	"log"
 	"sync"
 
@@ -10,10 +11,14 @@ import (
 
 // Merge merges the STL files using a worker pool of numWorkers.
 func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
+	if numWorkers < 1 {
+		return nil, fmt.Errorf("invalid number of workers: %v", numWorkers)
+	}
+
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-	var mu sync.Mutex // protects mesh
+	var mu sync.Mutex // protects mesh and mergeErr
 	addFunc := func(meshToAdd *gl.Mesh) {
 		mu.Lock()
 		if mesh == nil {
@@ -30,7 +35,9 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 		wg.Add(1)
 		go func(filename string) {
 			if err := merge(filename, addFunc); err != nil {
+				mu.Lock()
 				mergeErr = err
+				mu.Unlock()
 			}
 			<-ch // release a worker
 			wg.Done()
-- 
2.43.0


From e6ae32e9a84ee849e73205c307ce2299e49c71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 16/29] fix: merge tools fail without input and never overwrite
 without -f

---
 cmd/merge-binvox/merge-binvox.go | 16 ++++++++--------
 cmd/merge-stl/merge-stl.go       | 12 +++++++++---
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index f70491b..cd43846 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -31,21 +31,21 @@ func main() {
 		log.Fatalf("No files found matching %v*.binvox", *prefix)
 	}
 	outFile := *prefix + ".vsh"
-	var newFiles []string
-	for _, f := range files { // Quick sanity check
-		if f != outFile {
-			newFiles = append(newFiles, f)
-			continue
-		}
+	if len(files) == 0 {
+		log.Fatalf("No files found matching %v*.binvox", *prefix)
+	}
+	if _, err := os.Lstat(outFile); err == nil { // Quick sanity check
 		if *force {
 			log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
 		} else {
 			log.Fatalf("%v already exists. To overwrite, use -f flag.", outFile)
 		}
+	} else if !os.IsNotExist(err) {
+		log.Fatal(err)
 	}
 
-	log.Printf("Merging %v binvox files into %v...", len(newFiles), outFile)
-	vsh, err := vshell.Merge(newFiles)
+	log.Printf("Merging %v binvox files into %v...", len(files), outFile)
+	vsh, err := vshell.Merge(files)
 	if err != nil {
 		log.Fatalf("Merge: %v", err)
 	}
diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 71253ec..f0fcaff 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -32,16 +32,22 @@ func main() {
 	}
 	outFile := *prefix + ".stl"
 	var newFiles []string
-	for _, f := range files { // Quick sanity check
-		if f != outFile {
+	for _, f := range files {
+		if filepath.Clean(f) != filepath.Clean(outFile) {
 			newFiles = append(newFiles, f)
-			continue
 		}
+	}
+	if len(newFiles) == 0 {
+		log.Fatalf("No files found matching %v*.stl", *prefix)
+	}
+	if _, err := os.Lstat(outFile); err == nil { // Quick sanity check
 		if *force {
 			log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
 		} else {
 			log.Fatalf("%v already exists. To overwrite, use -f flag.", outFile)
 		}
+	} else if !os.IsNotExist(err) {
+		log.Fatal(err)
 	}
 
 	log.Printf("Merging %v STL files into %v using %v workers...", len(newFiles), outFile, *numWorkers)
-- 
2.43.0


From 33ee7e4696c5d289bf33e3183ea2ba78c00aeb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 17/29] fix: svx2stl fails on archives without a manifest

---
 cmd/svx2stl/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 959f897..1170802 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -89,6 +89,9 @@ func read(filename string) (*binvox.BinVOX, error) {
 
 		scanImage(img, model, sliceNum)
 	}
+	if model == nil {
+		return nil, fmt.Errorf("could not find manifest.xml in %q", filename)
+	}
 
 	return model, nil
 }
-- 
2.43.0


From b0c6b09c4d75f2d6c6b10a37358cb8d7461e6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 18/29] fix: stldice covers the whole model with any division

---
 cmd/stldice/stldice.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index a93af96..7341b61 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -34,6 +34,9 @@ var (
 	mbbRE = regexp.MustCompile(`^\s*[\(\[]?\s*([^,\s]+)\s*,\s*([^,\s]+)\s*,\s*([^\]\)\s]+)\s*[\]\)]?\s*\-\s*[\(\[]?\s*([^,\s]+)\s*,\s*([^,\s]+)\s*,\s*([^\]\)\s]+)\s*[\)\]]?\s*$`)
 )
 
+// epsilon keeps rounding errors from adding voxels to the model dimensions.
+const epsilon = 1e-9
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "Usage of %s:\n", filepath.Base(os.Args[0]))
@@ -129,18 +132,18 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 	modelDimInMM := mbb.Size()
 	log.Printf("diceMesh(mbb=(%v,%v,%v)-(%v,%v,%v), size=%v, scale=%v, dim=%v, n=[%v,%v,%v], outPrefix=%v); %v voxels per millimeter; %v millimeters per voxel", mbb.Min.X, mbb.Min.Y, mbb.Min.Z, mbb.Max.X, mbb.Max.Y, mbb.Max.Z, modelDimInMM, scale, dim, nx, ny, nz, outPrefix, vpmm, mmpv)
 
-	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
+	newModelDimX := int(math.Ceil(modelDimInMM.X*vpmm - epsilon))
+	newModelDimY := int(math.Ceil(modelDimInMM.Y*vpmm - epsilon))
+	newModelDimZ := int(math.Ceil(modelDimInMM.Z*vpmm - epsilon))
 	log.Printf("number of voxels needed along each axis to cover entire model: [%v,%v,%v]", newModelDimX, newModelDimY, newModelDimZ)
 
-	// subregion dimensions
-	dimX := newModelDimX / nx
-	dimY := newModelDimY / ny
-	dimZ := newModelDimZ / nz
-	if dimX == 0 || dimY == 0 || dimZ == 0 {
-		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+	if newModelDimX < nx || newModelDimY < ny || newModelDimZ < nz {
+		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
+	// subregion dimensions; the last subregions end where the model ends.
+	dimX := (newModelDimX + nx - 1) / nx
+	dimY := (newModelDimY + ny - 1) / ny
+	dimZ := (newModelDimZ + nz - 1) / nz
 
 	maxDim := dimX
 	if dimY > maxDim {
@@ -150,8 +153,6 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 		maxDim = dimZ
 	}
 	log.Printf("maximum dimension = %v (the smaller this number, the faster the binvox writing will be)", maxDim)
-	subregionScale := float64(maxDim) * mmpv
-	log.Printf("subregion scale = %v", subregionScale)
 
 	for zi := 0; zi < nz; zi++ {
 		z1 := mbb.Min.Z + float64(zi*dimZ)*mmpv
@@ -167,10 +168,15 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 
 				x1 := mbb.Min.X + float64(xi*dimX)*mmpv
 				bv := &binvox.BinVOX{
-					NX: dimX, NY: dimY, NZ: dimZ,
+					NX: min(dimX, newModelDimX-xi*dimX),
+					NY: min(dimY, newModelDimY-yi*dimY),
+					NZ: min(dimZ, newModelDimZ-zi*dimZ),
 					TX: x1, TY: y1, TZ: z1,
-					Scale: subregionScale,
 				}
+				if bv.NX <= 0 || bv.NY <= 0 || bv.NZ <= 0 {
+					continue // The previous subregions cover the model.
+				}
+				bv.Scale = float64(bv.Dim()) * mmpv
 				if err := bv.Voxelize(mesh); err != nil {
 					return nil, fmt.Errorf("voxelize: %v", err)
 				}
-- 
2.43.0


From 47791f24423b00026b75e266273e0dd7beaf3d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 19/29] fix: the script of a resumed stldice run names all
 regions; its write errors are reported

---
 cmd/stldice/stldice.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 7341b61..57cfe91 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -7,6 +7,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"log"
@@ -98,7 +99,8 @@ func main() {
 	}
 
 	// Print out the commands needed to complete the operation.
-	fmt.Println("#!/bin/bash -x") // Do not use -e due to unwritten (empty) binvox files stopping the script.
+	out := bufio.NewWriter(os.Stdout)
+	fmt.Fprintln(out, "#!/bin/bash -x") // Do not use -e due to unwritten (empty) binvox files stopping the script.
 	var pfxs []string
 	for k := range prefixes {
 		pfxs = append(pfxs, k)
@@ -110,14 +112,17 @@ func main() {
 	}
 	common := fmt.Sprintf("%v-%v-%v-%v", *dim, *nX, *nY, *nZ)
 	for _, v := range pfxs {
-		fmt.Printf("voxcut -ostl %[1]v-%[4]v%[3]v.stl %[2]v-%[4]v%[3]v.binvox", stlOutPrefix, strings.TrimSuffix(flag.Arg(0), ".stl"), v, common)
+		fmt.Fprintf(out, "voxcut -ostl %[1]v-%[4]v%[3]v.stl %[2]v-%[4]v%[3]v.binvox", stlOutPrefix, strings.TrimSuffix(flag.Arg(0), ".stl"), v, common)
 		for _, arg := range flag.Args()[1:] {
-			fmt.Printf(" %v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)
+			fmt.Fprintf(out, " %v-%v%v.binvox", strings.TrimSuffix(arg, ".stl"), common, v)
 		}
-		fmt.Println()
+		fmt.Fprintln(out)
 	}
 	if len(pfxs) > 1 { // Merge all the STL files back together
-		fmt.Printf("merge-stl -f -prefix %v-%v\n", stlOutPrefix, common)
+		fmt.Fprintf(out, "merge-stl -f -prefix %v-%v\n", stlOutPrefix, common)
+	}
+	if err := out.Flush(); err != nil {
+		log.Fatalf("Unable to write the commands: %v", err)
 	}
 
 	log.Println("Done.")
@@ -163,6 +168,7 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 				outFile := newPrefix + ".binvox"
 				if _, err := os.Stat(outFile); err == nil || os.IsExist(err) {
 					log.Printf("Skipping writing existing file %v", outFile)
+					prefixes = append(prefixes, strings.TrimPrefix(newPrefix, outPrefix))
 					continue
 				}
 
-- 
2.43.0


From 967fdde18d422bd947616000cb01cbfe6ed478bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 20/29] fix: voxcut-dice reports failing writes of its commands
 and rejects empty tiles

---
 cmd/voxcut-dice/voxcut-dice.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 41afde7..f4b3c82 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -3,6 +3,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"log"
@@ -36,6 +37,10 @@ func main() {
 		log.Fatal("Must specify at least one of -obinvox, -ostl, or -ovox")
 	}
 
+	if *size < 1 {
+		log.Fatalf("size (%v) must be positive", *size)
+	}
+
 	base, err := binvox.Read(flag.Arg(0), 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
 	if err != nil {
 		log.Fatal(err)
@@ -45,8 +50,9 @@ func main() {
 		log.Fatalf("size (%v) larger than all dimensions (%v,%v,%v) - no need to dice", *size, base.NX, base.NY, base.NZ)
 	}
 
+	out := bufio.NewWriter(os.Stdout)
 	if *dryRun {
-		fmt.Println("#!/bin/bash -x")
+		fmt.Fprintln(out, "#!/bin/bash -x")
 	}
 
 	sizeArg := fmt.Sprintf("%04d", *size)
@@ -70,7 +76,7 @@ func main() {
 				args = append(args, flag.Args()...)
 
 				if *dryRun {
-					fmt.Println(strings.Join(args, " "))
+					fmt.Fprintln(out, strings.Join(args, " "))
 					continue
 				}
 				log.Printf("\n\nRunning: %v", strings.Join(args, " "))
@@ -83,4 +89,7 @@ func main() {
 			}
 		}
 	}
+	if err := out.Flush(); err != nil {
+		log.Fatalf("Unable to write the commands: %v", err)
+	}
 }
-- 
2.43.0


From 7008bad0e6c006ecd8f81e6e179e152e56076515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 21/29] fix: stl2svx agents survive any request and slice the
 whole model with any division

Requests with missing or non-finite vertices, flat meshes or invalid
dimensions made the servers crash or hang; errors while voxelizing ended
the agent process or were dropped so that the layer lacked voxels.
---
 stl2svx/agent/agent.go | 117 +++++++++++++++++++++++++----------------
 stl2svx/stl/stl.go     |  92 ++++++++++++++++++++++----------
 2 files changed, 137 insertions(+), 72 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index 6b237ba..6e315cc 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -70,11 +70,18 @@ func (m *agent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (resp *pb.
 		wg.Done()
 	}()
 
+	var vxErr error
 	for bv := range ch {
-		voxelize(bv, int(in.GetZ()), vxCh)
+		if vxErr == nil {
+			vxErr = voxelize(bv, int(in.GetZ()), vxCh)
+		}
 	}
 	close(vxCh)
 	wg.Wait()
+	if vxErr != nil {
+		log.Print(vxErr)
+		return nil, vxErr
+	}
 	if imErr != nil {
 		log.Printf("imager: %v", imErr)
 		return nil, imErr
@@ -96,44 +103,59 @@ type bvInfo struct {
 // through the provided channel.
 // dimZ is the number of agents needed to output the images.
 func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
+	job := in.GetNewJobRequest()
+	if len(job.GetStlFiles()) == 0 {
+		return nil, fmt.Errorf("Must pass at least one STL file to SliceJob")
+	}
+	base, err := stl.New(job.GetStlFiles()[0], job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
+	if err != nil {
+		return nil, fmt.Errorf("stl.New: %v", err)
+	}
+	if in.GetZ() < 0 || in.GetZ() >= int64(base.ModelDimZ) {
+		return nil, fmt.Errorf("slice z=%v is out of range: [0,%v)", in.GetZ(), base.ModelDimZ)
+	}
+	meshes := []*gl.Mesh{base.Mesh}
+	for _, stlFile := range job.GetStlFiles()[1:] {
+		mesh, err := base.NewCut(stlFile)
+		if err != nil {
+			return nil, fmt.Errorf("NewCut: %v", err)
+		}
+		meshes = append(meshes, mesh)
+	}
+
 	ch = make(chan *bvInfo)
 	go func() {
-		job := in.GetNewJobRequest()
-		var base *stl.STL
-		for i, stlFile := range job.GetStlFiles() {
-			stlMesh, err := stl.New(stlFile, job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
-			if err != nil {
-				log.Fatalf("stl.New: %v", err)
-			}
-			if i == 0 {
-				base = stlMesh
-			}
-			log.Printf("generateMR: i=%v, %v triangles", i, len(stlMesh.Mesh.Triangles))
-
-			// Now dice it up.
-			for zi := 0; zi < int(job.GetNZ()); zi++ {
-				z1 := base.MBB.Min.Z + float64(zi*base.DimZ)*base.MMPV
-				for yi := 0; yi < int(job.GetNY()); yi++ {
-					y1 := base.MBB.Min.Y + float64(yi*base.DimY)*base.MMPV
-					for xi := 0; xi < int(job.GetNX()); xi++ {
-						x1 := base.MBB.Min.X + float64(xi*base.DimX)*base.MMPV
-
-						mapIn := &bvInfo{
-							dx: xi * base.DimX,
-							dy: yi * base.DimY,
-							dz: zi * base.DimZ,
-							bv: &binvox.BinVOX{
-								NX: base.DimX, NY: base.DimY, NZ: base.DimZ,
-								TX: x1, TY: y1, TZ: z1,
-								Scale: base.SubregionScale,
-							},
-							base: i == 0,
-							mesh: stlMesh.Mesh,
-						}
-
-						log.Printf("generateMR: sending STL #%v to mapper", i)
-						ch <- mapIn
+		for i, mesh := range meshes {
+			log.Printf("generateMR: i=%v, %v triangles", i, len(mesh.Triangles))
+
+			// Now dice up the subregions that contain the slice.
+			zi := int(in.GetZ()) / base.DimZ
+			z1 := base.MBB.Min.Z + float64(zi*base.DimZ)*base.MMPV
+			for yi := 0; yi < int(job.GetNY()); yi++ {
+				y1 := base.MBB.Min.Y + float64(yi*base.DimY)*base.MMPV
+				for xi := 0; xi < int(job.GetNX()); xi++ {
+					x1 := base.MBB.Min.X + float64(xi*base.DimX)*base.MMPV
+
+					mapIn := &bvInfo{
+						dx: xi * base.DimX,
+						dy: yi * base.DimY,
+						dz: zi * base.DimZ,
+						bv: &binvox.BinVOX{
+							NX: min(base.DimX, base.ModelDimX-xi*base.DimX),
+							NY: min(base.DimY, base.ModelDimY-yi*base.DimY),
+							NZ: min(base.DimZ, base.ModelDimZ-zi*base.DimZ),
+							TX: x1, TY: y1, TZ: z1,
+						},
+						base: i == 0,
+						mesh: mesh,
 					}
+					if mapIn.bv.NX <= 0 || mapIn.bv.NY <= 0 {
+						continue // The previous subregions cover the model.
+					}
+					mapIn.bv.Scale = float64(mapIn.bv.Dim()) * base.MMPV
+
+					log.Printf("generateMR: sending STL #%v to mapper", i)
+					ch <- mapIn
 				}
 			}
 		}
@@ -149,11 +171,10 @@ type voxelInfo struct {
 
 // voxelize takes an STL file and dices it into voxels
 // then sends them to the imager.
-func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
+func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) error {
 	bv := bvi.bv
-	if err := bv.VoxelizeZ(bvi.mesh, zi); err != nil {
-		log.Printf("voxelize(%v): %v", zi, err)
-		return
+	if err := bv.VoxelizeZ(bvi.mesh, zi-bvi.dz); err != nil {
+		return fmt.Errorf("voxelize(%v): %v", zi, err)
 	}
 
 	vType := "cut"
@@ -162,24 +183,30 @@ func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
 	}
 	log.Printf("voxelize(%v): sending %v %v voxels to imager(%v)...", zi, len(bv.WhiteVoxels), vType, zi)
 
-	keyFunc := func(k binvox.Key) {
+	keyFunc := func(k binvox.Key) error {
 		k.X += bvi.dx
 		k.Y += bvi.dy
 		k.Z += bvi.dz
 		if zi != k.Z {
-			log.Fatalf("voxelize(%v): k{%v,%v,%v} does not match zi=%v", zi, k.X, k.Y, k.Z, zi)
+			return fmt.Errorf("voxelize(%v): k{%v,%v,%v} does not match zi=%v", zi, k.X, k.Y, k.Z, zi)
 		}
 		if k.X < 0 || k.Y < 0 || k.Z < 0 {
-			return // common for a cut to extend beyond the bounds of the base.
+			return nil // common for a cut to extend beyond the bounds of the base.
 		}
 		ch <- voxelInfo{X: k.X, Y: k.Y, Base: bvi.base}
+		return nil
 	}
 	for k := range bv.WhiteVoxels {
-		keyFunc(k)
+		if err := keyFunc(k); err != nil {
+			return err
+		}
 	}
 	for k := range bv.ColorVoxels {
-		keyFunc(k)
+		if err := keyFunc(k); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 type pixelKey struct {
diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index f243bce..182239e 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -17,26 +17,69 @@ type STL struct {
 	Mesh *gl.Mesh
 	// The dimensions for the model.
 	ModelDimX, ModelDimY, ModelDimZ int
-	// The dimensions for each subregion.
+	// The dimensions for each subregion (that ends within the model).
 	DimX, DimY, DimZ int
 	// MMPV is the millimeters per voxel of the model.
 	MMPV float64
-	// SubregionScale represents the scale for each subregion.
-	SubregionScale float64
 }
 
-// New parses a pb.STLFile and returns an STL.
-// dim represents the number of voxels in the widest dimension.
-// nX, nY, nZ represent the number of subdivisions in each dimension.
-func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
+const (
+	maxDim   = 1 << 16 // sanity limit for the voxels along the widest dimension
+	maxReach = 1 << 30 // sanity limit for the voxels that a cut extends beyond the base
+	epsilon  = 1e-9    // keeps rounding errors from adding voxels to the model dimensions
+)
+
+// newMesh converts a pb.STLFile to a mesh.
+func newMesh(p *pb.STLFile) (*gl.Mesh, error) {
 	var tris []*gl.Triangle
-	for _, t := range p.GetTriangles() {
+	for i, t := range p.GetTriangles() {
+		for _, v := range []*pb.Vertex{t.GetV1(), t.GetV2(), t.GetV3()} {
+			// The sum is not finite if any coordinate is not.
+			if sum := v.GetX() + v.GetY() + v.GetZ(); v == nil || math.IsNaN(sum) || math.IsInf(sum, 0) {
+				return nil, fmt.Errorf("triangle #%v has an invalid vertex: %v", i, v)
+			}
+		}
 		tris = append(tris, gl.NewTriangleForPoints(
 			gl.V(t.V1.X, t.V1.Y, t.V1.Z),
 			gl.V(t.V2.X, t.V2.Y, t.V2.Z),
 			gl.V(t.V3.X, t.V3.Y, t.V3.Z)))
 	}
-	mesh := gl.NewTriangleMesh(tris)
+	return gl.NewTriangleMesh(tris), nil
+}
+
+// NewCut parses a pb.STLFile that cuts the base s and returns its mesh.
+func (s *STL) NewCut(p *pb.STLFile) (*gl.Mesh, error) {
+	mesh, err := newMesh(p)
+	if err != nil {
+		return nil, err
+	}
+	for i, t := range mesh.Triangles {
+		for _, v := range []gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position} {
+			if d := v.Sub(s.MBB.Min).DivScalar(s.MMPV); !(d.Abs().MaxComponent() <= maxReach) {
+				return nil, fmt.Errorf("triangle #%v is too far away from the base: %v", i, v)
+			}
+		}
+	}
+	return mesh, nil
+}
+
+// New parses a pb.STLFile and returns an STL.
+// dim represents the number of voxels in the widest dimension.
+// nX, nY, nZ represent the number of subdivisions in each dimension.
+func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
+	if dim < 1 || dim > maxDim {
+		return nil, fmt.Errorf("invalid number of voxels along the widest dimension: %v", dim)
+	}
+	if nX < 1 || nY < 1 || nZ < 1 {
+		return nil, fmt.Errorf("invalid number of divisions: (%v,%v,%v)", nX, nY, nZ)
+	}
+	mesh, err := newMesh(p)
+	if err != nil {
+		return nil, err
+	}
+	if len(mesh.Triangles) == 0 {
+		return nil, fmt.Errorf("base mesh must not be empty")
+	}
 	mbb := mesh.BoundingBox()
 
 	scale := mbb.Max.X - mbb.Min.X
@@ -48,31 +91,26 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	}
 	vpmm := float64(dim) / scale // voxels per millimeter
 	mmpv := 1.0 / vpmm           // millimeters per voxel
-	modelDimInMM := mbb.Size()
-	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
-	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
-	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
-	dimX := newModelDimX / int(nX)
-	dimY := newModelDimY / int(nY)
-	dimZ := newModelDimZ / int(nZ)
-	if dimX == 0 || dimY == 0 || dimZ == 0 {
-		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+	if !(mmpv > 0) || math.IsInf(vpmm, 0) || math.IsInf(mmpv, 0) {
+		return nil, fmt.Errorf("invalid size of base mesh: %v", scale)
 	}
-	maxDim := dimX
-	if dimY > maxDim {
-		maxDim = dimY
-	}
-	if dimZ > maxDim {
-		maxDim = dimZ
+	modelDimInMM := mbb.Size()
+	newModelDimX := int(math.Ceil(modelDimInMM.X*vpmm - epsilon))
+	newModelDimY := int(math.Ceil(modelDimInMM.Y*vpmm - epsilon))
+	newModelDimZ := int(math.Ceil(modelDimInMM.Z*vpmm - epsilon))
+	if int64(newModelDimX) < nX || int64(newModelDimY) < nY || int64(newModelDimZ) < nZ {
+		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
-	subregionScale := float64(maxDim) * mmpv
+	// The last subregions end where the model ends.
+	dimX := (newModelDimX + int(nX) - 1) / int(nX)
+	dimY := (newModelDimY + int(nY) - 1) / int(nY)
+	dimZ := (newModelDimZ + int(nZ) - 1) / int(nZ)
 
 	return &STL{
 		MBB:       mbb,
 		Mesh:      mesh,
 		ModelDimX: newModelDimX, ModelDimY: newModelDimY, ModelDimZ: newModelDimZ,
 		DimX: dimX, DimY: dimY, DimZ: dimZ,
-		MMPV:           mmpv,
-		SubregionScale: subregionScale,
+		MMPV: mmpv,
 	}, nil
 }
-- 
2.43.0


From 553ea33daabba181b4615478f4589b0d7bd32bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 22/29] fix: stl2svx master isolates jobs, retries layers and
 reports every failure

Concurrent jobs shared one zip file, layers of failed agents were missing
from the archive without an error, failed agents were never used again,
jobs without agents outlived their clients, layers of divided models were
left out, and the images did not match the pattern in the manifest.
---
 stl2svx/master/master.go | 216 +++++++++++++++++++++++++--------------
 1 file changed, 138 insertions(+), 78 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index adf15dc..f2c8be5 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -4,15 +4,19 @@ package master
 import (
 	"archive/zip"
 	"bytes"
+	"encoding/xml"
 	"fmt"
 	"image"
 	"image/draw"
 	"image/png"
 	"log"
+	"strings"
 	"sync"
 	"time"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 	"github.com/gmlewis/stldice/v4/stl2svx/stl"
@@ -20,21 +24,28 @@ import (
 )
 
 const (
-	idleWaitTime = 100 * time.Millisecond
-	maxSize      = 1 << 30 // 1GB
+	idleWaitTime  = 100 * time.Millisecond
+	retryWaitTime = time.Second
+	maxSize       = 1 << 30 // 1GB
 )
 
 // Master implements the pb.MasterServer interface.
 type master struct {
-	amu        sync.Mutex          // protects agents and idleAgents
-	idleAgents map[string]struct{} // just a map of idle agents
+	amu    sync.Mutex      // protects agents
+	agents map[string]bool // all registered agents; true if the agent is idle
+}
+
+// job represents a single client request.
+type job struct {
+	in   *pb.NewJobRequest
+	base *stl.STL
 
 	zmu     sync.Mutex  // protects zipFile
 	zipFile *zip.Writer // resulting SVX file
 }
 
 func New() *master {
-	return &master{idleAgents: make(map[string]struct{})}
+	return &master{agents: make(map[string]bool)}
 }
 
 func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobResponse, error) {
@@ -45,24 +56,45 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	if err != nil {
 		return nil, err
 	}
+	for i, stlFile := range in.GetStlFiles()[1:] {
+		if _, err := base.NewCut(stlFile); err != nil {
+			return nil, fmt.Errorf("STL file #%v: %v", i+1, err)
+		}
+	}
 
 	var zbuf bytes.Buffer
-	m.zipFile = zip.NewWriter(&zbuf)
+	j := &job{in: in, base: base, zipFile: zip.NewWriter(&zbuf)}
 
-	m.writeManifest(in, base)
-	m.writeBlankImages(in, base)
+	if err := j.writeManifest(); err != nil {
+		return nil, err
+	}
+	if err := j.writeBlankImages(); err != nil {
+		return nil, err
+	}
 
+	// The first slice that fails ends the job.
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
 	var wg sync.WaitGroup
-	for z := 0; z < base.DimZ; z++ {
+	var once sync.Once
+	var jobErr error
+	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
-			m.runAgent(ctx, in, z)
-			wg.Done()
+			defer wg.Done()
+			if err := m.runAgent(ctx, j, z); err != nil {
+				log.Printf("runAgent(%v) error: %v", z, err)
+				once.Do(func() { jobErr = err })
+				cancel()
+			}
 		}(z)
 	}
 	wg.Wait()
+	if jobErr != nil {
+		return nil, jobErr
+	}
 
-	if err := m.zipFile.Close(); err != nil {
+	if err := j.zipFile.Close(); err != nil {
 		return nil, err
 	}
 
@@ -73,109 +105,137 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 func (m *master) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest) (*pb.RegisterAgentResponse, error) {
 	address := in.GetAddress()
 	m.amu.Lock()
-	m.idleAgents[address] = struct{}{}
+	if _, ok := m.agents[address]; !ok { // A busy agent becomes idle when its slice is done.
+		m.agents[address] = true
+	}
 	m.amu.Unlock()
 	log.Printf("Successfully registered agent %v", address)
 	return &pb.RegisterAgentResponse{}, nil
 }
 
-// runAgent runs the agent on the given z slice.
-func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
-	req := &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)}
-	var conn *grpc.ClientConn
-	var address string
+// runAgent runs an agent on the given z slice.
+// It tries agents until one is reachable or the context is done.
+func (m *master) runAgent(ctx context.Context, j *job, z int) error {
 	for {
-		address = m.getIdleAgent()
-		log.Printf("Assigning agent %v to slice z=%v", address, z)
-		var err error
-		conn, err = grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
+		address, err := m.getIdleAgent(ctx)
 		if err != nil {
-			log.Printf("Unable to communicate with agent %v, finding another...", address)
-			continue
+			return err
+		}
+		log.Printf("Assigning agent %v to slice z=%v", address, z)
+		resp, err := sliceJob(ctx, address, &pb.SliceJobRequest{NewJobRequest: j.in, Z: int64(z)})
+		switch status.Code(err) {
+		case codes.OK:
+			m.releaseAgent(address)
+			return j.writeImage(z, resp.GetPngFile())
+		case codes.Unavailable, codes.Unimplemented:
+			log.Printf("Unable to communicate with agent %v, finding another... (%v)", address, err)
+			time.AfterFunc(retryWaitTime, func() { m.releaseAgent(address) }) // It may become reachable again.
+		default:
+			m.releaseAgent(address)
+			return fmt.Errorf("error running SliceJob with agent %v: %v", address, err)
 		}
-		break
-	}
-	defer conn.Close()
-	c := pb.NewAgentClient(conn)
-	resp, err := c.SliceJob(ctx, req)
-	if err != nil {
-		log.Printf("Error running SliceJob with agent %v: %v", address, err)
-		return
 	}
-	m.amu.Lock()
-	m.idleAgents[address] = struct{}{} // Mark agent as idle
-	m.amu.Unlock()
-
-	// Write the PNG to the zip file.
-	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
+}
 
-	log.Printf("runAgent(%v): writing %v to zip file...", z, outFile)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	f, err := m.zipFile.Create(outFile)
+// sliceJob sends the request to the agent.
+func sliceJob(ctx context.Context, address string, req *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
+	conn, err := grpc.Dial(address, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(maxSize)), grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(maxSize)))
 	if err != nil {
-		log.Printf("runAgent(%v) error: %v", z, err)
-		return
-	}
-	if _, err := f.Write(resp.GetPngFile()); err != nil {
-		log.Printf("runAgent(%v) error: %v", z, err)
+		return nil, status.Error(codes.Unavailable, err.Error())
 	}
+	defer conn.Close()
+	return pb.NewAgentClient(conn).SliceJob(ctx, req)
 }
 
 // getIdleAgent sits in a loop waiting for an agent to become idle, then marks it busy and returns its address.
-func (m *master) getIdleAgent() string {
+func (m *master) getIdleAgent(ctx context.Context) (string, error) {
 	for {
+		if err := ctx.Err(); err != nil {
+			return "", err
+		}
 		m.amu.Lock()
-		var address string
-		if len(m.idleAgents) > 0 {
-			for address = range m.idleAgents {
-				break // get any address from the map
+		for address, idle := range m.agents { // get any idle agent from the map
+			if idle {
+				m.agents[address] = false
+				m.amu.Unlock()
+				return address, nil
 			}
-			delete(m.idleAgents, address)
-			m.amu.Unlock()
-			return address
 		}
 		m.amu.Unlock()
-		time.Sleep(idleWaitTime)
+		select {
+		case <-ctx.Done():
+		case <-time.After(idleWaitTime):
+		}
 	}
 }
 
-func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
+// releaseAgent marks the agent as idle.
+func (m *master) releaseAgent(address string) {
+	m.amu.Lock()
+	m.agents[address] = true
+	m.amu.Unlock()
+}
+
+// imageName returns the name of the image of the given layer.
+func (j *job) imageName(layer int) string {
+	return fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", j.in.GetDim(), j.in.GetOutPrefix(), j.in.GetDim(), j.in.GetNX(), j.in.GetNY(), j.in.GetNZ(), layer)
+}
+
+// writeImage writes the PNG of the given z slice to the zip file.
+func (j *job) writeImage(z int, img []byte) error {
+	outFile := j.imageName(z + 1)
+	log.Printf("runAgent(%v): writing %v to zip file...", z, outFile)
+	j.zmu.Lock()
+	defer j.zmu.Unlock()
+	f, err := j.zipFile.Create(outFile)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(img)
+	return err
+}
+
+func (j *job) writeManifest() error {
 	const outFile = "manifest.xml"
-	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.DimZ)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	mf, err := m.zipFile.Create(outFile)
+	in, base := j.in, j.base
+	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.ModelDimZ)
+	j.zmu.Lock()
+	defer j.zmu.Unlock()
+	mf, err := j.zipFile.Create(outFile)
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(mf, `<?xml version="1.0"?>
+	// The prefix is part of an XML attribute that is a pattern.
+	var prefix bytes.Buffer
+	if err := xml.EscapeText(&prefix, []byte(strings.Replace(in.GetOutPrefix(), "%", "%%", -1))); err != nil {
+		return err
+	}
+	_, err = fmt.Fprintf(mf, `<?xml version="1.0"?>
 <grid version="1.0" gridSizeX="%v" gridSizeY="%v" gridSizeZ="%v" voxelSize="%v" subvoxelBits="8" originX="%v" originY="%v" originZ="%v" slicesOrientation="Y" >
   <channels>
-    <channel type="DENSITY" bits="8" slices="%v/%v-%v-%v-%v-%v-%%04d.png" />
+    <channel type="DENSITY" bits="8" slices="%v/%s-%v-%v-%v-%v-%%04d.png" />
   </channels>
 </grid>
-`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
-	return nil
+`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), prefix.Bytes(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
+	return err
 }
 
-func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
+func (j *job) writeBlankImages() error {
 	// For Shapeways, create a black base and a black top.
-	rect := image.Rect(0, 0, int(in.GetDim()+2), int(in.GetDim()+2))
+	rect := image.Rect(0, 0, int(j.in.GetDim()+2), int(j.in.GetDim()+2))
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
-	m.zmu.Lock()
-	defer m.zmu.Unlock()
-	outf := func(fn string) {
-		f, err := m.zipFile.Create(fn)
+	j.zmu.Lock()
+	defer j.zmu.Unlock()
+	outf := func(fn string) error {
+		f, err := j.zipFile.Create(fn)
 		if err != nil {
-			log.Printf("error: %v", err)
-			return
-		}
-		if err := png.Encode(f, img); err != nil {
-			log.Printf("error: %v", err)
+			return err
 		}
+		return png.Encode(f, img)
+	}
+	if err := outf(j.imageName(0)); err != nil {
+		return err
 	}
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.DimZ+1))
+	return outf(j.imageName(j.base.ModelDimZ + 1))
 }
-- 
2.43.0


From 583e07ee63231537ea57d4d6b248428bbbc2ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 23/29] fix: stl.Load panicked if reading an ASCII file failed
 midway

---
 stl/load.go | 77 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/stl/load.go b/stl/load.go
index 75c5d20..489a197 100644
--- a/stl/load.go
+++ b/stl/load.go
@@ -15,44 +15,49 @@ import (
 // Load loads a binary or ASCII STL file.
 // Unlike gl.LoadSTL, it returns an error if the file is incomplete.
 func Load(filename string) (*gl.Mesh, error) {
-	if err := checkComplete(filename); err != nil {
-		return nil, fmt.Errorf("%v: %w", filename, err)
-	}
-	mesh, err := gl.LoadSTL(filename)
+	mesh, err := load(filename)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("%v: %w", filename, err)
 	}
-	// Let the bounding box be calculated again as gl.LoadSTL includes
-	// the origin if there are more CPUs than triangles.
-	return gl.NewTriangleMesh(mesh.Triangles), nil
+	return mesh, nil
 }
 
-// checkComplete returns an error if the STL file is not complete.
-func checkComplete(filename string) error {
+func load(filename string) (*gl.Mesh, error) {
 	f, err := os.Open(filename)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	defer f.Close()
 	info, err := f.Stat()
 	if err != nil {
-		return err
+		return nil, err
 	}
-	r := bufio.NewReader(f)
 	var header gl.STLHeader
-	if err := binary.Read(r, binary.LittleEndian, &header); err != nil {
-		return err
+	if err := binary.Read(f, binary.LittleEndian, &header); err != nil {
+		return nil, err
 	}
-	if info.Size() == int64(header.Count)*50+84 {
-		return nil // binary
+	if info.Size() == int64(header.Count)*50+84 { // binary
+		f.Close()
+		mesh, err := gl.LoadSTL(filename)
+		if err != nil {
+			return nil, err
+		}
+		// Let the bounding box be calculated again as gl.LoadSTL includes
+		// the origin if there are more CPUs than triangles.
+		return gl.NewTriangleMesh(mesh.Triangles), nil
 	}
-
 	if _, err := f.Seek(0, io.SeekStart); err != nil {
-		return err
+		return nil, err
 	}
-	var numVertices int
+	return loadASCII(f)
+}
+
+// loadASCII loads an ASCII STL file.
+// gl.LoadSTL panics if it can only read part of it.
+func loadASCII(r io.Reader) (*gl.Mesh, error) {
+	var vertices []gl.Vector
 	var ended bool
-	scanner := bufio.NewScanner(f)
+	scanner := bufio.NewScanner(r)
 	for scanner.Scan() {
 		switch fields := bytes.Fields(scanner.Bytes()); {
 		case len(fields) == 0:
@@ -61,22 +66,34 @@ func checkComplete(filename string) error {
 		case bytes.Equal(fields[0], []byte("solid")):
 			ended = false
 		case bytes.Equal(fields[0], []byte("vertex")):
-			numVertices++
 			if len(fields) != 4 {
-				return fmt.Errorf("bad vertex: %q", scanner.Text())
+				return nil, fmt.Errorf("bad vertex: %q", scanner.Text())
 			}
-			for _, f := range fields[1:] {
-				if _, err := strconv.ParseFloat(string(f), 64); err != nil {
-					return fmt.Errorf("bad vertex: %q", scanner.Text())
+			var v [3]float64
+			for i, s := range fields[1:] {
+				f, err := strconv.ParseFloat(string(s), 64)
+				if err != nil {
+					return nil, fmt.Errorf("bad vertex: %q", scanner.Text())
 				}
+				v[i] = f
 			}
+			vertices = append(vertices, gl.Vector{X: v[0], Y: v[1], Z: v[2]})
 		}
 	}
 	if err := scanner.Err(); err != nil {
-		return err
+		return nil, err
+	}
+	if !ended || len(vertices)%3 != 0 {
+		return nil, fmt.Errorf("STL file is incomplete: %w", io.ErrUnexpectedEOF)
 	}
-	if !ended || numVertices%3 != 0 {
-		return fmt.Errorf("STL file is incomplete: %w", io.ErrUnexpectedEOF)
+	var tris []*gl.Triangle
+	for i := 0; i < len(vertices); i += 3 {
+		t := &gl.Triangle{}
+		t.V1.Position = vertices[i]
+		t.V2.Position = vertices[i+1]
+		t.V3.Position = vertices[i+2]
+		t.FixNormals()
+		tris = append(tris, t)
 	}
-	return nil
+	return gl.NewTriangleMesh(tris), nil
 }
-- 
2.43.0


From 12b98192b7fb0a567cbea742fd138621531ec116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 24/29] fix: manifold meshes had holes at five unambiguous
 voxel neighborhoods

Five orientations of the g0156 template were missing: cells with g0124,
g0135, g1237, g2467 or g3567 were logged as unhandled and produced no
triangles, leaving the mesh open.
---
 binvox/manifold.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/binvox/manifold.go b/binvox/manifold.go
index 7213aa7..a195755 100644
--- a/binvox/manifold.go
+++ b/binvox/manifold.go
@@ -503,6 +503,17 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 	case g1 | g5 | g6 | g7: // (inverse = g0234 = case g0 | g2 | g3 | g4:)
 		return apply(k, rotateTrisCounterClockwiseY(mirrorX(rotateTrisCounterClockwiseZ(rotateTris180Z(v2v)))), flipNormals(g0156))
 
+	case g1 | g2 | g3 | g7: // (inverse = g0456 = case g0 | g4 | g5 | g6:)
+		return apply(k, rotateTrisCounterClockwiseY(mirrorX(v2v)), g0156)
+	case g0 | g1 | g2 | g4: // (inverse = g3567 = case g3 | g5 | g6 | g7:)
+		return apply(k, rotateTrisClockwiseY(v2v), g0156)
+	case g3 | g5 | g6 | g7: // (inverse = g0124 = case g0 | g1 | g2 | g4:)
+		return apply(k, rotateTrisClockwiseY(v2v), flipNormals(g0156))
+	case g0 | g1 | g3 | g5: // (inverse = g2467 = case g2 | g4 | g6 | g7:)
+		return apply(k, rotateTrisClockwiseY(mirrorX(v2v)), flipNormals(g0156))
+	case g2 | g4 | g6 | g7: // (inverse = g0135 = case g0 | g1 | g3 | g5:)
+		return apply(k, rotateTrisClockwiseY(mirrorX(v2v)), g0156)
+
 	case g2 | g4 | g5 | g7:
 		return apply(k, v2v, g2457)
 
-- 
2.43.0


From e1c478e473d4a88291911daaa4af0ed69ed192bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 25/29] fix: merge tools fail when they cannot list their input
 files

---
 cmd/merge-binvox/merge-binvox.go |  5 ++--
 cmd/merge-stl/merge-stl.go       |  5 ++--
 infile/infile.go                 | 51 ++++++++++++++++++++++++++++++++
 3 files changed, 57 insertions(+), 4 deletions(-)
 create mode 100644 infile/infile.go

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index cd43846..f2bb866 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path/filepath"
 
+	"github.com/gmlewis/stldice/v4/infile"
 	"github.com/gmlewis/stldice/v4/vshell"
 )
 
@@ -26,9 +27,9 @@ func main() {
 	}
 	flag.Parse()
 
-	files, err := filepath.Glob(*prefix + "*.binvox")
+	files, err := infile.Glob(*prefix + "*.binvox")
 	if err != nil {
-		log.Fatalf("No files found matching %v*.binvox", *prefix)
+		log.Fatalf("Unable to find files matching %v*.binvox: %v", *prefix, err)
 	}
 	outFile := *prefix + ".vsh"
 	if len(files) == 0 {
diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index f0fcaff..047a519 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path/filepath"
 
+	"github.com/gmlewis/stldice/v4/infile"
 	"github.com/gmlewis/stldice/v4/stl"
 )
 
@@ -26,9 +27,9 @@ func main() {
 	}
 	flag.Parse()
 
-	files, err := filepath.Glob(*prefix + "*.stl")
+	files, err := infile.Glob(*prefix + "*.stl")
 	if err != nil {
-		log.Fatalf("No files found matching %v*.stl", *prefix)
+		log.Fatalf("Unable to find files matching %v*.stl: %v", *prefix, err)
 	}
 	outFile := *prefix + ".stl"
 	var newFiles []string
diff --git a/infile/infile.go b/infile/infile.go
new file mode 100644
index 0000000..079dcea
--- /dev/null
+++ b/infile/infile.go
@@ -0,0 +1,51 @@
+// Package infile finds input files.
+package infile
+
+import (
+	"os"
+	"path/filepath"
+	"strings"
+)
+
+// Glob is like filepath.Glob, but it reports I/O errors instead of leaving
+// out the files that it could not find because of them.
+func Glob(pattern string) ([]string, error) {
+	if _, err := filepath.Match(pattern, ""); err != nil {
+		return nil, err
+	}
+	if !strings.ContainsAny(pattern, `*?[\`) {
+		if _, err := os.Lstat(pattern); os.IsNotExist(err) {
+			return nil, nil
+		} else if err != nil {
+			return nil, err
+		}
+		return []string{pattern}, nil
+	}
+
+	dir, file := filepath.Split(pattern)
+	if dir == pattern {
+		return nil, filepath.ErrBadPattern
+	}
+	dirs, err := Glob(filepath.Clean(dir))
+	if err != nil {
+		return nil, err
+	}
+	var matches []string
+	for _, d := range dirs {
+		if fi, err := os.Stat(d); os.IsNotExist(err) || err == nil && !fi.IsDir() {
+			continue
+		}
+		entries, err := os.ReadDir(d)
+		if err != nil {
+			return nil, err
+		}
+		for _, entry := range entries {
+			if ok, err := filepath.Match(file, entry.Name()); err != nil {
+				return nil, err
+			} else if ok {
+				matches = append(matches, filepath.Join(d, entry.Name()))
+			}
+		}
+	}
+	return matches, nil
+}
-- 
2.43.0


From a862a925eb1f89c3dcf698836aa12402c628620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 26/29] fix: binvox-dice reports failing writes, rejects
 factors below one and keeps % in file names

---
 cmd/binvox-dice/binvox-dice.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/cmd/binvox-dice/binvox-dice.go b/cmd/binvox-dice/binvox-dice.go
index b59255a..ea4e595 100644
--- a/cmd/binvox-dice/binvox-dice.go
+++ b/cmd/binvox-dice/binvox-dice.go
@@ -11,6 +11,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"log"
@@ -48,6 +49,10 @@ func main() {
 		log.Fatal("Must supply at least one filename")
 	}
 
+	if *factor < 1 {
+		log.Fatalf("factor (%v) must be positive", *factor)
+	}
+
 	parts := mbbRE.FindStringSubmatch(*mbbString)
 	if len(parts) != 7 {
 		log.Fatalf("Unable to parse mbb %q", *mbbString)
@@ -77,9 +82,10 @@ func main() {
 		log.Fatalf("unable to parse mbb %v: %v", parts[6], err)
 	}
 
-	fmt.Println("#!/bin/bash -x")
-	fmt.Println("# Generated with command line:")
-	fmt.Printf("# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.Join(flag.Args(), " "))
+	out := bufio.NewWriter(os.Stdout)
+	fmt.Fprintln(out, "#!/bin/bash -x")
+	fmt.Fprintln(out, "# Generated with command line:")
+	fmt.Fprintf(out, "# binvox-dice \\\n#\t-factor %v \\\n#\t-mbb %q \\\n#\t-subx %v \\\n#\t-suby %v \\\n#\t-subz %v \\\n#\t%v\n", *factor, *mbbString, *subX, *subY, *subZ, strings.Join(flag.Args(), " "))
 
 	xf := *factor
 	if !*subX {
@@ -96,7 +102,7 @@ func main() {
 
 	sFmt := "voxcut -ostl out%[1]v.stl"
 	for _, arg := range flag.Args() {
-		a := strings.TrimSuffix(arg, ".stl")
+		a := strings.ReplaceAll(strings.TrimSuffix(arg, ".stl"), "%", "%%")
 		sFmt += " " + a + "%[1]v.binvox"
 	}
 
@@ -110,9 +116,9 @@ func main() {
 			for xi := 0; xi < xf; xi++ {
 				x1 := gl.V(0, 0, llx).Lerp(gl.V(0, 0, urx), float64(xi)/float64(xf)).Z
 				x2 := gl.V(0, 0, llx).Lerp(gl.V(0, 0, urx), float64(xi+1)/float64(xf)).Z
-				fmt.Println()
+				fmt.Fprintln(out)
 				for _, arg := range flag.Args() {
-					fmt.Printf("binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, arg)
+					fmt.Fprintf(out, "binvox -pb -d %v -bb %g %g %g %g %g %g %v\n", maxD, x1, y1, z1, x2, y2, z2, arg)
 				}
 
 				// Now output the voxcut commands to process all the .binvox files...
@@ -120,10 +126,13 @@ func main() {
 				if numCuts > 0 {
 					c = fmt.Sprintf("_%v", numCuts)
 				}
-				fmt.Printf(sFmt+"\n", c)
+				fmt.Fprintf(out, sFmt+"\n", c)
 
 				numCuts++
 			}
 		}
 	}
+	if err := out.Flush(); err != nil {
+		log.Fatalf("Unable to write the commands: %v", err)
+	}
 }
-- 
2.43.0


From 6747d80ea610b5f399362e8cf00d51e8a2b8a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:29 +0000
Subject: [PATCH 27/29] fix: stl2svx agents register an address at which they
 listen

---
 stl2svx/stl2svx-server/stl2svx-server.go | 28 ++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/stl2svx/stl2svx-server/stl2svx-server.go b/stl2svx/stl2svx-server/stl2svx-server.go
index c916a7d..edfda10 100644
--- a/stl2svx/stl2svx-server/stl2svx-server.go
+++ b/stl2svx/stl2svx-server/stl2svx-server.go
@@ -4,10 +4,9 @@ package main
 
 import (
 	"flag"
-	"fmt"
 	"log"
 	"net"
-	"strings"
+	"strconv"
 
 	"github.com/gmlewis/stldice/v4/stl2svx/agent"
 	"github.com/gmlewis/stldice/v4/stl2svx/master"
@@ -50,11 +49,14 @@ func main() {
 	s.Serve(lis)
 }
 
+// getAddress returns an address where the master can reach this agent.
 func getAddress(tcpAddr *net.TCPAddr) string {
-	localPort := tcpAddr.String()
-	port := strings.Split(localPort, ":")
+	if len(tcpAddr.IP) > 0 && !tcpAddr.IP.IsUnspecified() {
+		return tcpAddr.String()
+	}
+	port := strconv.Itoa(tcpAddr.Port)
 
-	var result string
+	var result net.IP
 	ifaces, err := net.Interfaces()
 	if err != nil {
 		log.Fatalf("net.Interfaces: %v", err)
@@ -70,16 +72,20 @@ func getAddress(tcpAddr *net.TCPAddr) string {
 			switch v := addr.(type) {
 			case *net.IPNet:
 				ip = v.IP
-				result = ip.String()
-				if !strings.HasPrefix(result, "127.") && !strings.Contains(result, ":") {
-					return fmt.Sprintf("%v:%v", result, port[len(port)-1])
+				if ip.To4() != nil && !ip.IsLoopback() {
+					return net.JoinHostPort(ip.String(), port)
 				}
 			case *net.IPAddr:
 				ip = v.IP
-				result = ip.String()
 			}
-			log.Printf("got address: %v", result)
+			log.Printf("got address: %v", ip)
+			if result == nil || ip.IsGlobalUnicast() && !result.IsGlobalUnicast() {
+				result = ip
+			}
 		}
 	}
-	return fmt.Sprintf("%v:%v", result, port[len(port)-1])
+	if result == nil {
+		return net.JoinHostPort("", port)
+	}
+	return net.JoinHostPort(result.String(), port)
 }
-- 
2.43.0


From d95adc5082550c1f389fa9abc5553ab5b843a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:16 +0000
Subject: [PATCH 28/29] fix: voxcut accounts for the translation of the cutting
 voxels

---
 cmd/voxcut/voxcut.go | 49 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index abc4af6..652f2c4 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"io/fs"
 	"log"
+	"math"
 	"os"
 
 	gl "github.com/fogleman/fauxgl"
@@ -65,7 +66,7 @@ func main() {
 	}
 
 	for i := 1; i < flag.NArg(); i++ {
-		cut, err := binvox.Read(flag.Arg(i), *startX, *startY, *startZ, *countX, *countY, *countZ)
+		cut, err := readCut(flag.Arg(i), base)
 		if errors.Is(err, fs.ErrNotExist) { // Empty models have no file.
 			log.Printf("skipping: %v", err)
 			continue
@@ -125,6 +126,45 @@ func main() {
 	log.Println("Done.")
 }
 
+// readCut reads the voxels of the cutting model that lie within the
+// start indices and counts, which are given in the grid of the base.
+func readCut(filename string, base *binvox.BinVOX) (*binvox.BinVOX, error) {
+	cut, err := binvox.Read(filename, 0, 0, 0, 1, 1, 1) // Read only one voxel to get the header info.
+	if err != nil {
+		return nil, err
+	}
+
+	dx, dy, dz := translation(base, cut)
+	sx, cx := cutRange(*startX+dx, *countX, cut.NX)
+	sy, cy := cutRange(*startY+dy, *countY, cut.NY)
+	sz, cz := cutRange(*startZ+dz, *countZ, cut.NZ)
+	if cx == 0 || cy == 0 || cz == 0 { // The cut lies outside.
+		cut.WhiteVoxels = binvox.WhiteVoxelMap{}
+		return cut, nil
+	}
+	return binvox.Read(filename, sx, sy, sz, cx, cy, cz)
+}
+
+// cutRange limits a start index and count (0=all) to the n voxels of a model.
+func cutRange(start, count, n int) (int, int) {
+	end := n
+	if count > 0 && count < n-start {
+		end = start + count
+	}
+	start = max(start, 0)
+	return start, max(end-start, 0)
+}
+
+// translation returns the offset from base indices to cut indices
+// by taking into account the translations.
+func translation(base, cut *binvox.BinVOX) (dx, dy, dz int) {
+	vpmm := base.VoxelsPerMM()
+	dx = int(math.Round((base.TX - cut.TX) * vpmm))
+	dy = int(math.Round((base.TY - cut.TY) * vpmm))
+	dz = int(math.Round((base.TZ - cut.TZ) * vpmm))
+	return dx, dy, dz
+}
+
 // voxcut cuts the base voxels by the cut voxels and returns the newVoxels.
 // It accounts for different translation settings in the base and cutting voxels.
 func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error) {
@@ -136,16 +176,13 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	}
 
 	newVoxels = binvox.WhiteVoxelMap{}
-	vpmm := base.VoxelsPerMM()
 
 	// Map base indices to cut indices by taking into account the translations.
-	dx := int((base.TX - cut.TX) * vpmm)
-	dy := int((base.TY - cut.TY) * vpmm)
-	dz := int((base.TZ - cut.TZ) * vpmm)
+	dx, dy, dz := translation(base, cut)
 	log.Printf("Translating cut voxels by [%v,%v,%v]", dx, dy, dz)
 
 	keyFunc := func(v binvox.Key, vc binvox.Color) {
-		c, ok := cut.Get(v.X, v.Y, v.Z)
+		c, ok := cut.Get(v.X+dx, v.Y+dy, v.Z+dz)
 		if !ok { // Nothing to cut - keep voxel.
 			newVoxels[v] = struct{}{}
 			return
-- 
2.43.0


From 4a15881b3bbd1dc59eb55b150d79baf3c6be3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:14 +0000
Subject: [PATCH 29/29] fix: outfile: do not replace a pipe whose status cannot
 be read

If Lstat failed, Write took the file for a regular one and renamed the
temporary file over it, even over a device or a pipe.
---
 outfile/outfile.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/outfile/outfile.go b/outfile/outfile.go
index 03fba8e..8d893a2 100644
--- a/outfile/outfile.go
+++ b/outfile/outfile.go
@@ -12,7 +12,11 @@ import (
 // Otherwise, filename remains as it was.
 // Anything but a regular file (like a device or a pipe) is written directly.
 func Write(filename string, write func(w io.Writer) error) error {
-	if fi, err := os.Lstat(filename); err == nil && !fi.Mode().IsRegular() {
+	fi, err := os.Lstat(filename)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if err == nil && !fi.Mode().IsRegular() {
 		f, err := os.OpenFile(filename, os.O_WRONLY|os.O_TRUNC, 0)
 		if err != nil {
 			return err
-- 
2.43.0

