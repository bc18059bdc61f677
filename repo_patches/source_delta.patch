From aeeb62b50fd145295e61b030c6ada07230cf068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:30 +0000
Subject: [PATCH 01/19] fix: seed the anti-aliasing sequence for every pixel
 and pass

Ctx.Init never initialised Ctx.AA, so every anti-aliased sample of every
pixel used the same sub-pixel offset. Use bases of its own for it, so that
the sub-pixel offset is not the light sample of the same pass.
---
 tracer/ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/ctx.go b/tracer/ctx.go
index f932c68..fa9f45d 100644
--- a/tracer/ctx.go
+++ b/tracer/ctx.go
@@ -50,7 +50,7 @@ func NewCtx(numPix int) *Ctx {
 		sequence2: sequence.NewHalton(5, 7, 1, sh),
 		sequence3: sequence.PseudoRandom(),
 		sequenceL: sequence.NewHalton(5, 7, 11, sh),
-		AA:        sequence.NewHalton(2, 3, 1, sh),
+		AA:        sequence.NewHalton(11, 13, 1, sh),
 		rays:      pool{new: func() interface{} { return new(Ray) }},
 	}
 
@@ -69,6 +69,7 @@ func (c *Ctx) Init(pixel, pass int) {
 	c.sequence2.Init(pixel, pass)
 	c.sequence3.Init(pixel, pass)
 	c.sequenceL.Init(pixel, pass)
+	c.AA.Init(pixel, pass)
 }
 
 func (c *Ctx) Generate2() (u, v float64) {
-- 
2.43.0


From fbef8a70c0915420236bed91955bf0b887829164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:30 +0000
Subject: [PATCH 02/19] fix: a Tree leaf that is missed by the ray must not
 report a hit

node.Intersect returned its internal T=9e99 sentinel when none of the
leafs were hit, so a ray passing through the bounding box but missing the
contents of a small Tree (or mesh) was reported as a hit without material
or normal.
---
 tracer/objects/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index f4aef4f..3aa7fdd 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -94,6 +94,9 @@ func (n *node) Intersect(r *Ray) HitRecord {
 				front = frag
 			}
 		}
+		if front.T == 9e99 {
+			return HitRecord{} // no leaf was hit
+		}
 		return front
 	}
 
-- 
2.43.0


From b7dfab7a48b4a6674c0b274d7d7ec914955eb946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 03/19] fix: round Tree bounding boxes outwards when converting
 to float32

Rounding to nearest could shrink a node's box by half a float32 ulp, so
that it no longer enclosed the objects in it and grazing rays missed them.
---
 tracer/objects/tree.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 3aa7fdd..2b756ad 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -1,6 +1,7 @@
 package objects
 
 import (
+	"math"
 	"sort"
 
 	"github.com/barnex/bruteray/geom"
@@ -184,11 +185,22 @@ type boundingBoxf struct {
 	Min, Max [3]float32
 }
 
+// boundingBoxToF returns a single-precision box that encloses b:
+// the bounds are rounded outwards, so the box never shrinks.
 func boundingBoxToF(b BoundingBox) boundingBoxf {
-	return boundingBoxf{
+	f := boundingBoxf{
 		Min: vecf(&b.Min),
 		Max: vecf(&b.Max),
 	}
+	for i := range f.Min {
+		if float64(f.Min[i]) > b.Min[i] {
+			f.Min[i] = math.Nextafter32(f.Min[i], float32(math.Inf(-1)))
+		}
+		if float64(f.Max[i]) < b.Max[i] {
+			f.Max[i] = math.Nextafter32(f.Max[i], float32(math.Inf(1)))
+		}
+	}
+	return f
 }
 
 func (b *boundingBoxf) to64() BoundingBox {
-- 
2.43.0


From 8927009974ae7fb770c779a3b8a272b89821d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 04/19] fix: report write errors when saving PPM images

Encode48BE ignored the errors of its pixel writes, and savePPM the error
of the final Flush, so a truncated file was reported as saved.
---
 api/render.go     |  6 ++++--
 imagef/ppm/ppm.go | 12 +++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/api/render.go b/api/render.go
index f24ccb9..63d5321 100644
--- a/api/render.go
+++ b/api/render.go
@@ -131,6 +131,8 @@ func savePPM(fname string, img imagef.Image) error {
 	}
 	defer f.Close()
 	w := bufio.NewWriter(f)
-	defer w.Flush()
-	return ppm.EncodeAscii16(w, img)
+	if err := ppm.EncodeAscii16(w, img); err != nil {
+		return err
+	}
+	return w.Flush()
 }
diff --git a/imagef/ppm/ppm.go b/imagef/ppm/ppm.go
index 34b3304..79e7671 100644
--- a/imagef/ppm/ppm.go
+++ b/imagef/ppm/ppm.go
@@ -41,11 +41,17 @@ func Encode48BE(w io.Writer, img imagef.Image) error {
 		for j := range img[i] {
 			c := img[i][j]
 			encodeUint16BE(buf, uint16(trunc(c.R)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 			encodeUint16BE(buf, uint16(trunc(c.G)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 			encodeUint16BE(buf, uint16(trunc(c.B)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 8cb53e68f823224a7348c9b998363ca59d8f8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 05/19] fix: Tree must not re-order the caller's slice

Tree(objects...) sorted the slice that was passed to it in-place.
---
 tracer/objects/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 2b756ad..f73aea2 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -14,8 +14,9 @@ const maxFacePerLeaf = 7
 // Tree returns a Bounding Volume Hierarchy containing the given objects,
 // which as an efficient Intersect method.
 func Tree(objects ...Interface) Interface {
+	// buildTree re-orders its argument, do not affect the caller's slice.
 	return &tree{
-		root: buildTree(objects),
+		root: buildTree(append([]Interface(nil), objects...)),
 	}
 }
 
-- 
2.43.0


From 29e9e8901360ba890fa16127c0254675d052eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 06/19] fix: reject mesh files whose faces refer to
 non-existing vertices

The PLY and OBJ parsers returned such faces without error, causing an
index out of range panic when the mesh is constructed.
---
 tracer/objects/obj/parser.go | 14 ++++++++++++++
 tracer/objects/ply/parser.go | 18 +++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/tracer/objects/obj/parser.go b/tracer/objects/obj/parser.go
index a86093d..6e20701 100644
--- a/tracer/objects/obj/parser.go
+++ b/tracer/objects/obj/parser.go
@@ -46,6 +46,20 @@ func (p *parser) parseFile(fname string) {
 		p.parseLine(scanner.Text())
 	}
 	p.check(scanner.Err())
+	p.checkFaces()
+}
+
+// checkFaces checks that all faces refer to existing vertices.
+func (p *parser) checkFaces() {
+	for _, faces := range p.obj.Faces {
+		for _, f := range faces {
+			for _, idx := range f {
+				if int(idx) >= len(p.obj.Vertices) {
+					p.errorf("invalid face index: %v, have %v vertices", idx+1, len(p.obj.Vertices))
+				}
+			}
+		}
+	}
 }
 
 func (p *parser) parseLine(l string) {
diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index f3a9d0f..45e584f 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -73,16 +73,15 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 
 		var f [3]int
 		for c := 0; c < 3; c++ {
-			idx := p.atoi(fields[c+1])
-			f[c] = idx
+			f[c] = p.vertexIndex(fields[c+1], numVertex)
 		}
 		faces = append(faces, f)
 
 		if numV == 4 {
 			faces = append(faces, [3]int{
-				p.atoi(fields[3]),
-				p.atoi(fields[4]),
-				p.atoi(fields[1]),
+				p.vertexIndex(fields[3], numVertex),
+				p.vertexIndex(fields[4], numVertex),
+				p.vertexIndex(fields[1], numVertex),
 			})
 		}
 
@@ -114,6 +113,15 @@ func (p *parser) atoi(s string) int {
 	return i
 }
 
+// vertexIndex parses the index of one of numVertex vertices.
+func (p *parser) vertexIndex(s string, numVertex int) int {
+	i := p.atoi(s)
+	if i < 0 || i >= numVertex {
+		p.panicf("vertex index out of range: %v, have %v vertices", i, numVertex)
+	}
+	return i
+}
+
 func (p *parser) atof(s string) float64 {
 	i, err := strconv.ParseFloat(s, 64)
 	p.check(err)
-- 
2.43.0


From 28f62e253187e407d2c373111392ff6429dd4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 07/19] fix: texture lookup at infinite or out of range
 coordinates

Bilinear textures indexed out of range at infinite (u,v), nearest
textures at any (u,v) outside of the unit square.
---
 texture/interpolation.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/texture/interpolation.go b/texture/interpolation.go
index 280cc4f..8410845 100644
--- a/texture/interpolation.go
+++ b/texture/interpolation.go
@@ -28,11 +28,22 @@ func (n *nearest) AtUV(u, v float64) colorf.Color {
 	img := n.img
 	w := img.Bounds().Dx()
 	h := img.Bounds().Dy()
-	i := int(u*float64(w-1) + 0.5)
-	j := int(v*float64(h-1) + 0.5)
+	i := clampIndex(u*float64(w-1)+0.5, w)
+	j := clampIndex(v*float64(h-1)+0.5, h)
 	return atIndex(img, i, j)
 }
 
+// clampIndex rounds x down to an integer in [0, n).
+func clampIndex(x float64, n int) int {
+	if !(x > 0) { // handles NaN
+		return 0
+	}
+	if x >= float64(n) {
+		return n - 1
+	}
+	return int(x)
+}
+
 type bilinear struct{ img imagef.Image }
 
 func (n *bilinear) At(p geom.Vec) colorf.Color {
@@ -45,7 +56,7 @@ func (f *bilinear) AtUV(u, v float64) colorf.Color {
 	w := img.Bounds().Dx()
 	h := img.Bounds().Dy()
 
-	if u != u || v != v { //NaN
+	if util.IsBad(u) || util.IsBad(v) { // NaN, Inf
 		return colorf.Color{}
 	}
 
-- 
2.43.0


From 3785635f381606c22bb532e5fe06e91f5d125c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 08/19] fix: small bloom radius must not turn the image into
 NaNs

The star kernel of less than 4 pixels is all zeros, AddConvolution
divided by its sum.
---
 imagef/post/convolution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/imagef/post/convolution.go b/imagef/post/convolution.go
index 2d617cb..e3a4c7c 100644
--- a/imagef/post/convolution.go
+++ b/imagef/post/convolution.go
@@ -23,6 +23,9 @@ func AddConvolution(dst, src, kern imagef.Image, amplitude, offset float64) imag
 			sum += (c.R + c.G + c.B) / 3
 		}
 	}
+	if sum == 0 {
+		return dst // empty kernel, nothing to add
+	}
 	k := kern.Copy()
 	factor := amplitude / sum
 	for iy := range k {
-- 
2.43.0


From 8c646a5fdfa3752f291022a47b10101cf8b8195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 09/19] fix: bruteray-watch crashed when the program could not
 be started

cmd.Process is nil after a failed Start.
---
 cmd/bruteray-watch/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/bruteray-watch/main.go b/cmd/bruteray-watch/main.go
index 9c15d27..64029f0 100644
--- a/cmd/bruteray-watch/main.go
+++ b/cmd/bruteray-watch/main.go
@@ -62,6 +62,7 @@ func rerun(fname string, args []string) {
 
 	if err := cmd.Start(); err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		return
 	}
 	out, err := exec.Command("renice", "20", fmt.Sprint(cmd.Process.Pid)).CombinedOutput()
 	if err != nil {
-- 
2.43.0


From ff9e8c436d5c932e076ca5085918322771ab2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 10/19] fix: a ray starting exactly on a bounding box was
 culled

The entry point of such a ray is at T=0, which the bounding box tests
reported as 'no intersection', so objects inside were missed.
---
 tracer/objects/boundingbox.go | 3 ++-
 tracer/objects/tree.go        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracer/objects/boundingbox.go b/tracer/objects/boundingbox.go
index 521a14b..fd07b9f 100644
--- a/tracer/objects/boundingbox.go
+++ b/tracer/objects/boundingbox.go
@@ -138,7 +138,8 @@ func (s *BoundingBox) intersect(r *Ray) float64 {
 }
 
 func (s *BoundingBox) intersects(r *Ray) bool {
-	return s.intersect(r) > 0
+	_, exit := intersectAABB2(s, r)
+	return exit > 0 // also if the ray starts inside or on the box
 }
 
 func max3(x, y, z float64) float64 {
diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index f73aea2..ee375af 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -262,7 +262,7 @@ func intersectAABBf(s *boundingBoxf, r *Ray) float64 {
 	if ten > tex {
 		return 0
 	}
-	if ten < 0 {
+	if ten <= 0 {
 		return tex
 	}
 	return ten
-- 
2.43.0


From dff6d9e21a8282ec7201ea43af6d472779f1f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:46 +0000
Subject: [PATCH 11/19] fix: transforming an infinite object panicked

Transforming the corners of an infinite bounding box yields NaNs, so e.g.
a Backdrop or Not(...) could not be transformed.
---
 tracer/objects/transformed.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracer/objects/transformed.go b/tracer/objects/transformed.go
index 0392af8..94106f3 100644
--- a/tracer/objects/transformed.go
+++ b/tracer/objects/transformed.go
@@ -3,6 +3,7 @@ package objects
 import (
 	"github.com/barnex/bruteray/geom"
 	. "github.com/barnex/bruteray/tracer/types"
+	"github.com/barnex/bruteray/util"
 )
 
 // Transformed returns a transformed instance of the original object.
@@ -65,6 +66,9 @@ func (o *transformed) Inside(p Vec) bool {
 func transformBounds(orig BoundingBox, t *geom.AffineTransform) BoundingBox {
 	h := orig.hull()
 	for i := range h {
+		if util.IsBadVec(h[i]) {
+			return infBox // transforming infinite coordinates yields NaN
+		}
 		h[i] = t.TransformPoint(h[i])
 	}
 	return boundingBoxFromHull(h)
-- 
2.43.0


From e5bf4a0c2b9b05ff35535a983063274992368249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:13 +0000
Subject: [PATCH 12/19] fix: bake requests must not share or block the server's
 sampler

Canceling a bake allowed a second one to start while the first was still
sampling, so both wrote to the same Sampler, whose fields were moreover
used without holding the lock. And a view that makes the renderer panic
left the server in the 'already baking' state forever.
---
 api/server.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/api/server.go b/api/server.go
index 8a48748..8c760f8 100644
--- a/api/server.go
+++ b/api/server.go
@@ -27,6 +27,7 @@ type server struct {
 	httpServer http.Server
 
 	mu        sync.Mutex
+	baking    bool // a bake is in progress, it owns smplr
 	cancel    chan struct{}
 	smplr     *tracer.Sampler
 	smplrView View // View currently being rendred by smplr
@@ -95,19 +96,20 @@ func (s *server) renderPreview(v View) imagef.Image {
 }
 
 func (s *server) renderView(v View) (imagef.Image, error) {
-	cancel, err := s.prepareBakery(v)
+	smplr, numPass, cancel, err := s.prepareBakery(v)
 	if err != nil {
 		return nil, err
 	}
-	defer func() { // wrong
+	defer func() {
 		s.mu.Lock()
 		defer s.mu.Unlock()
+		s.baking = false
 		s.cancel = nil
 		s.smplrNum++
 	}()
 
-	s.smplr.SampleWithCancel(s.smplrNum, cancel)
-	img := s.smplr.Image()
+	smplr.SampleWithCancel(numPass, cancel)
+	img := smplr.Image()
 
 	if img == nil {
 		return nil, errors.New("baking cancelled")
@@ -115,14 +117,15 @@ func (s *server) renderView(v View) (imagef.Image, error) {
 	return img, nil
 }
 
-func (s *server) prepareBakery(v View) (chan struct{}, error) {
+// prepareBakery starts a bake, unless one is in progress already.
+// The returned sampler may be used without locking until the bake ends.
+func (s *server) prepareBakery(v View) (*tracer.Sampler, int, chan struct{}, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.cancel != nil {
-		return nil, errors.New("already baking")
+	if s.baking {
+		return nil, 0, nil, errors.New("already baking")
 	}
-	s.cancel = make(chan struct{})
 
 	if s.smplr == nil || s.smplrView != v {
 		spec := v.ApplyTo(s.spec)
@@ -131,7 +134,10 @@ func (s *server) prepareBakery(v View) (chan struct{}, error) {
 		s.smplrNum = 1
 	}
 
-	return s.cancel, nil
+	// Only now: the view comes from the client, and rendering it may panic above.
+	s.baking = true
+	s.cancel = make(chan struct{})
+	return s.smplr, s.smplrNum, s.cancel, nil
 }
 
 func (s *server) handleCancel(w http.ResponseWriter, r *http.Request) error {
-- 
2.43.0


From 137d94000c5452bd22f5896eb328bb20bcaf70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:36 +0000
Subject: [PATCH 13/19] fix: horizontal rays in exponential fog are attenuated
 too

---
 tracer/media/expfog.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tracer/media/expfog.go b/tracer/media/expfog.go
index 6b84033..4fbcbfa 100644
--- a/tracer/media/expfog.go
+++ b/tracer/media/expfog.go
@@ -49,6 +49,12 @@ func intersectIntervals(start1, end1, start2, end2 float64) (start, end float64)
 func intersectHalfSpace(height float64, r *Ray) (ten, tex float64) {
 	rs := r.Start[1] - height
 	rd := r.Dir[1]
+	if rd == 0 { // parallel to the surface: always or never in the medium
+		if rs <= 0 {
+			return math.Inf(-1), math.Inf(1)
+		}
+		return 0, 0
+	}
 	ten = -rs / rd
 	tex = -r.Dir[1] / 0 // inf with same same as
 	if ten > tex {
-- 
2.43.0


From 1f2ee12499014f6cc1701dc7cb18d6d498888512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:17 +0000
Subject: [PATCH 14/19] fix: default height of a one pixel wide image is one,
 not zero

---
 api/spec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/spec.go b/api/spec.go
index 99f616d..d7e4b76 100644
--- a/api/spec.go
+++ b/api/spec.go
@@ -66,6 +66,9 @@ func (s *Spec) InitDefaults() {
 	}
 	if s.Height == 0 {
 		s.Height = (s.Width * defaultImageHeight) / defaultImageWidth
+		if s.Height == 0 {
+			s.Height = 1 // width 1 would round down to an empty image
+		}
 	}
 	if s.DebugNormals == 1 {
 		s.applyMaterial(test.Normal)
-- 
2.43.0


From b459d2137044db23ef200afe02aefceea341abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:34 +0000
Subject: [PATCH 15/19] fix: anti-aliasing stays within the pixel in landscape
 images

---
 tracer/sampler.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tracer/sampler.go b/tracer/sampler.go
index da0c020..af2fb74 100644
--- a/tracer/sampler.go
+++ b/tracer/sampler.go
@@ -156,11 +156,10 @@ func (s *Sampler) imageSize() (w, h int) {
 	return s.sum.Size()
 }
 
-// ??
+// PixelSize returns the size of a pixel in the coordinates of IndexToCam,
+// which is 1/w along both axes.
 func PixelSize(w, h int) float64 {
-	wf, hf := float64(w), float64(h)
-	minf := math.Min(wf, hf)
-	return 1 / minf
+	return 1 / float64(w)
 }
 
 func makeInt2D(w, h int) [][]int {
-- 
2.43.0


From 05af46412de87f1c8f195c5a873db9f689cbe081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:28 +0000
Subject: [PATCH 16/19] fix: a scene does not change when the caller overwrites
 the lists it was built from

---
 tracer/scene.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/scene.go b/tracer/scene.go
index 674eb8a..49e1377 100644
--- a/tracer/scene.go
+++ b/tracer/scene.go
@@ -32,8 +32,8 @@ func NewScene(recursionDepth int, lights []Light, objs ...Object) *Scene {
 		objAndLights = append(objAndLights, o)
 	}
 	return &Scene{
-		lights:             lights,
-		objects:            objs,
+		lights:             append([]Light(nil), lights...),
+		objects:            append([]Object(nil), objs...),
 		objectsAndLights:   objAndLights,
 		objectsMinusLights: objMinusLights,
 		RecursionDepth:     recursionDepth,
@@ -43,7 +43,7 @@ func NewScene(recursionDepth int, lights []Light, objs ...Object) *Scene {
 // TODO: unify
 func NewSceneWithMedia(recDepth int, media []Medium, lights []Light, objs ...Object) *Scene {
 	s := NewScene(recDepth, lights, objs...)
-	s.media = media
+	s.media = append([]Medium(nil), media...)
 	return s
 }
 
-- 
2.43.0


From b996f1d75fb784e7fb3c5fd317fa663f220684d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:05 +0000
Subject: [PATCH 17/19] fix: ply: do not allocate memory for vertices and faces
 the file does not contain

A header claiming e.g. 100000000000 vertices ended the program with an
unrecoverable out of memory error instead of returning an error.
---
 tracer/objects/ply/parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index 45e584f..00791ce 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -54,15 +54,22 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 		}
 	}
 
-	vertex := make([]geom.Vec, numVertex)
+	if numVertex < 0 || numFace < 0 {
+		p.panicf("negative number of elements: %v vertices, %v faces", numVertex, numFace)
+	}
+
+	// Do not allocate based on the header: the file may be shorter than it claims.
+	var vertex []geom.Vec
 	for i := 0; i < numVertex; i++ {
 		fields := strings.Fields(p.readLine())
+		var v geom.Vec
 		for c := 0; c < 3; c++ {
-			vertex[i][c] = p.atof(fields[c])
+			v[c] = p.atof(fields[c])
 		}
+		vertex = append(vertex, v)
 	}
 
-	faces := make([][3]int, 0, numFace)
+	var faces [][3]int
 	for i := 0; i < numFace; i++ {
 		fields := strings.Fields(p.readLine())
 
-- 
2.43.0


From 77edf5720fa4f55aaa0c37a3a858b49a759597e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 18/19] fix: api: report when the profiling server cannot be
 started

---
 api/render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/render.go b/api/render.go
index 63d5321..4691fc1 100644
--- a/api/render.go
+++ b/api/render.go
@@ -35,7 +35,7 @@ func Render(spec Spec) {
 	spec.InitDefaults()
 
 	if *flagPProf != "" {
-		go http.ListenAndServe(*flagPProf, nil)
+		go func() { check(http.ListenAndServe(*flagPProf, nil)) }()
 	}
 
 	switch {
-- 
2.43.0


From df0f90cbe1519355b825ebbb695b0c77d554e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:03 +0000
Subject: [PATCH 19/19] fix: IsoSurface.Intersect no longer hangs when the hit
 is far away

The bisection stopped at an absolute tolerance only. From about 1e10 units
away, two adjacent floating-point numbers are further apart than that, so the
interval stopped shrinking and rendering never finished.
---
 tracer/objects/isosurface.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/isosurface.go b/tracer/objects/isosurface.go
index cddcc05..03d6ca0 100644
--- a/tracer/objects/isosurface.go
+++ b/tracer/objects/isosurface.go
@@ -128,6 +128,9 @@ func (f *isoSurface) bisect(r *Ray, min, max float64) float64 {
 	tol := f.Tol
 	for (out - in) > tol {
 		mid := (in + out) / 2
+		if mid == in || mid == out {
+			break // far away, the floating-point resolution is coarser than tol
+		}
 		if f.isoValueAt(r.At(mid)) > 0 {
 			in = mid
 		} else {
-- 
2.43.0

