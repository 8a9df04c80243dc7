From 24edde96d522d4bd801c55dcd6f360c22f306bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 01/35] fix: return the error of an STL file which cannot be
 read completely

---
 reader/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reader/reader.go b/reader/reader.go
index bd2ef49..0b901e6 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -116,7 +116,9 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if _, err := os.Stat(filename); errors.Is(err, os.ErrNotExist) {
 		return model, os.ErrNotExist
 	}
-	stl.CopyFile(filename, model)
+	if err := stl.CopyFile(filename, model); err != nil {
+		return model, err
+	}
 	return model, nil
 }
 
-- 
2.43.0


From 78418b295fd6dda1f057b95f2c7db4777a2d021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 02/35] fix: do not panic when the bounds of a model without
 faces are needed

---
 optimizer/model.go | 8 ++++++++
 reader/reader.go   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/optimizer/model.go b/optimizer/model.go
index 46bf676..3f793cf 100644
--- a/optimizer/model.go
+++ b/optimizer/model.go
@@ -30,6 +30,10 @@ func (o optimizedModel) Size() data.MicroVec3 {
 }
 
 func (o optimizedModel) Min() data.MicroVec3 {
+	if len(o.faces) == 0 {
+		return data.NewMicroVec3(0, 0, 0)
+	}
+
 	ret := o.faces[0].Points()[0].Copy()
 
 	for _, face := range o.faces {
@@ -52,6 +56,10 @@ func (o optimizedModel) Min() data.MicroVec3 {
 }
 
 func (o optimizedModel) Max() data.MicroVec3 {
+	if len(o.faces) == 0 {
+		return data.NewMicroVec3(0, 0, 0)
+	}
+
 	ret := o.faces[0].Points()[0].Copy()
 
 	for _, face := range o.faces {
diff --git a/reader/reader.go b/reader/reader.go
index 0b901e6..59b7480 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -61,6 +61,10 @@ func (m Model) Face(index int) data.Face {
 }
 
 func (m Model) Min() data.MicroVec3 {
+	if len(m.faces) == 0 {
+		return data.NewMicroVec3(0, 0, 0)
+	}
+
 	ret := m.faces[0].Points()[0].Copy()
 
 	for _, face := range m.faces {
@@ -83,6 +87,10 @@ func (m Model) Min() data.MicroVec3 {
 }
 
 func (m Model) Max() data.MicroVec3 {
+	if len(m.faces) == 0 {
+		return data.NewMicroVec3(0, 0, 0)
+	}
+
 	ret := m.faces[0].Points()[0].Copy()
 
 	for _, face := range m.faces {
-- 
2.43.0


From 8ba4a4516c704643c652d2d82cb7de637346315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 03/35] fix: slice models with empty layers and models which do
 not stand on the plate

---
 slicer/slicer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index e3cd091..7dcd3dc 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -15,6 +15,7 @@
 package slicer
 
 import (
+	"errors"
 	"fmt"
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
@@ -31,7 +32,12 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 }
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
-	layerCount := (m.Size().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
+	// The top of the model counts, not its size, as it may not stand directly on the build plate.
+	maxZ := m.Max().Z()
+	if m.FaceCount() == 0 || maxZ < s.options.Print.InitialLayerThickness {
+		return nil, errors.New("the model is too low, it does not reach the first layer")
+	}
+	layerCount := (maxZ-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
 
 	layers := make([]*layer, layerCount)
 
@@ -111,6 +117,10 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 	c := clip.NewClipper()
 
 	for i, layer := range layers {
+		if layer == nil {
+			// There is no face at this height.
+			layer = newLayer(i, s.options)
+		}
 		layer.makePolygons(m, s.options.Slicing.JoinPolygonSnapDistance, s.options.Slicing.FinishPolygonSnapDistance)
 		lp, ok := c.GenerateLayerParts(layer)
 
-- 
2.43.0


From 4d4eabcda504f5486394acea2e919b05fa6c23cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 04/35] fix: generate infill above an empty layer

---
 modifier/infill.go          | 11 +++++++++--
 modifier/internal_infill.go |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/modifier/infill.go b/modifier/infill.go
index dbf51be..5d7fa01 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -43,14 +43,21 @@ func TopInfill(layer data.PartitionedLayer) ([]data.LayerPart, error) {
 func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// An empty layer does not need any infill, but the layers above it may do.
+			continue
+		}
 
 		perimeters, err := Perimeters(layers[layerNr])
-		if err != nil || perimeters == nil {
+		if err != nil {
 			return err
 		}
+		if perimeters == nil {
+			continue
+		}
 
 		var bottomInfill []data.LayerPart
 		var topInfill []data.LayerPart
diff --git a/modifier/internal_infill.go b/modifier/internal_infill.go
index bf9ccbe..30de8d5 100644
--- a/modifier/internal_infill.go
+++ b/modifier/internal_infill.go
@@ -27,9 +27,13 @@ func NewInternalInfillModifier(options *data.Options) handler.LayerModifier {
 func (m internalInfillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// An empty layer does not need any infill, but the layers above it may do.
+			continue
+		}
 
 		bottomInfill, err := BottomInfill(layers[layerNr])
 		if err != nil {
-- 
2.43.0


From 6ce30536e4099d765407d12842e9e85c0cb7961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 05/35] fix: allow clipping when both sides are empty

---
 clip/clip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index 1b119fb..a72ad5b 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -301,7 +301,7 @@ func (c clipperClipper) Union(parts []data.LayerPart, toMerge []data.LayerPart)
 }
 
 func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.LayerPart, toClip []data.LayerPart) (clippedParts []data.LayerPart, ok bool) {
-	if parts == nil && toClip == nil {
+	if len(parts) == 0 && len(toClip) == 0 {
 		return nil, true
 	}
 
-- 
2.43.0


From 1bbabc6d2d25f9dca842862d54216d495bc48f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 06/35] fix: do not panic when there is no perimeter to draw
 the skirt around

---
 gcode/renderer/skirt.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gcode/renderer/skirt.go b/gcode/renderer/skirt.go
index 0d3f988..90ce27a 100644
--- a/gcode/renderer/skirt.go
+++ b/gcode/renderer/skirt.go
@@ -48,10 +48,19 @@ func (Skirt) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.Part
 		// Draw the skirt.
 		c := clip.NewClipper()
 		// Generate the hull around everything.
-		hull, ok := c.Hull(append(support, perimeters.ToOneDimension()...))
+		parts := append(support, perimeters.ToOneDimension()...)
+		if len(parts) == 0 {
+			// There may be parts without any perimeter.
+			parts = layer.LayerParts()
+		}
+		hull, ok := c.Hull(parts)
 		if !ok {
 			return errors.New("could not generate hull around all perimeters to create the skirt")
 		}
+		if len(hull) == 0 {
+			// Nothing to draw a skirt around.
+			return nil
+		}
 
 		// Generate all skirt lines by exsetting the hull.
 		skirt := c.Inset(data.NewBasicLayerPart(hull, nil), -options.Printer.ExtrusionWidth, options.Print.BrimSkirt.SkirtCount, distance)
-- 
2.43.0


From a6cc6a9bdc04672d24bfc2497b274c35f599e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 07/35] fix: support printing without any perimeter

---
 modifier/infill.go    |  2 +-
 modifier/perimeter.go | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/modifier/infill.go b/modifier/infill.go
index 5d7fa01..3be4260 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -68,7 +68,7 @@ func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 		// It also takes into account the configured number of top/bottom layers.
 		for partNr, part := range perimeters {
 			// for the last (most inner) inset of each part
-			for _, insetPart := range part[len(part)-1] {
+			for _, insetPart := range innermostParts(part, layers[layerNr].LayerParts()[partNr], m.options.Printer.ExtrusionWidth) {
 				var bottomInfillParts, topInfillParts []data.LayerPart
 				// 1. Calculate the area which needs full infill for top and bottom layerS
 
diff --git a/modifier/perimeter.go b/modifier/perimeter.go
index ac13042..ef5ff90 100644
--- a/modifier/perimeter.go
+++ b/modifier/perimeter.go
@@ -77,7 +77,7 @@ func (m perimeterModifier) Modify(layers []data.PartitionedLayer) error {
 			}
 
 			// Use only the most inner perimeter.
-			for _, insetPart := range part[len(part)-1] {
+			for _, insetPart := range innermostParts(part, layers[layerNr].LayerParts()[partNr], m.options.Printer.ExtrusionWidth) {
 
 				maxOverlapBorder, err := calculateOverlapPerimeter(insetPart, m.options.Print.InfillOverlapPercent, m.options.Printer.ExtrusionWidth)
 				if err != nil {
@@ -96,6 +96,17 @@ func (m perimeterModifier) Modify(layers []data.PartitionedLayer) error {
 	return nil
 }
 
+// innermostParts returns the most inner perimeters out of all insets of the given part.
+// If there are no perimeters at all, it returns the area in which a line can be placed without protruding from the part.
+func innermostParts(insets [][]data.LayerPart, part data.LayerPart, extrusionWidth data.Micrometer) []data.LayerPart {
+	if len(insets) > 0 {
+		return insets[len(insets)-1]
+	}
+
+	c := clip.NewClipper()
+	return c.Inset(part, extrusionWidth, 1, -extrusionWidth/2)[0]
+}
+
 // calculateOverlapPerimeter helper function for calculating the overlap-perimeter out of a layer part.
 func calculateOverlapPerimeter(part data.LayerPart, overlapPercent int, extrusionWidth data.Micrometer) ([]data.LayerPart, error) {
 	perimeterOverlap := data.Micrometer(float32(extrusionWidth) * (100.0 - float32(overlapPercent)) / 100.0)
-- 
2.43.0


From 62a213847bf61af621821d3ebe47269b8c3a8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 08/35] fix: do not fail on moves without any length in empty
 layers

---
 clip/clip.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clip/clip.go b/clip/clip.go
index a72ad5b..e85b61a 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -325,6 +325,11 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 }
 
 func (c clipperClipper) IsCrossingPerimeter(parts []data.LayerPart, line data.Path) (result, ok bool) {
+	if min, max := line.Bounds(); min.Sub(max).Size2() == 0 {
+		// A line without any length cannot cross anything (and clipper fails if there is nothing else to clip).
+		return false, true
+	}
+
 	// TODO: Is there a more performant way to detect this?
 	cl := clipper.NewClipper(clipper.IoReverseSolution) // inverse solution so that it is basically LINE - PARTS
 
-- 
2.43.0


From cef377102750820e340d9050bd88bb2e2dd76ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 09/35] fix: find the most distant point when smoothing a path

The distances are squared already. Squaring the maximum again hides points
which are farther away and overflows for long lines, so that boxes longer
than about 55 mm lose their corners.
---
 data/2d.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 52994bc..586ed97 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -56,7 +56,7 @@ func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, m
 		// TODO: check usage of 'Shortest Distance' from a point to a line segment
 		//       suggested here https://karthaus.nl/rdp/ I think slic3r uses that
 		d := PerpendicularDistance2(p1, p2, points[i])
-		if d > maxDist*maxDist {
+		if d > maxDist {
 			maxDist = d
 			idx = i
 		}
-- 
2.43.0


From 6c7b387d5059a156801952cdf1bf2edc03a9ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:52 +0000
Subject: [PATCH 10/35] fix: combine overlapping parts as their union when
 clipping

Grown areas of parts which are close together overlap each other. With the
even-odd rule the overlapping area was lost: solid infill and support had gaps
there.
---
 clip/clip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index e85b61a..d82d4ad 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -316,7 +316,8 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 		cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true)
 	}
 
-	tree, ok := cl.Execute2(clipType, clipper.PftEvenOdd, clipper.PftEvenOdd)
+	// Parts may overlap each other. Non zero handles them as their union (holes have the opposite direction).
+	tree, ok := cl.Execute2(clipType, clipper.PftNonZero, clipper.PftNonZero)
 
 	if !ok {
 		return nil, ok
-- 
2.43.0


From 2f46f70dccb3821da5189b67b7050f1e5b9120c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 11/35] fix: support overhangs above the threshold angle, not
 above half of its distance

---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index 89045b4..3a270c5 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -89,7 +89,7 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 
 		// offset layer by d
 		cl := clip.NewClipper()
-		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, -data.Micrometer(-math.Round(distance))/2).ToOneDimension()
+		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, data.Micrometer(math.Round(distance))).ToOneDimension()
 
 		// subtract result from the next layer
 		support, ok := cl.Difference(layers[layerNr+1].LayerParts(), offsetLayer)
-- 
2.43.0


From 03cccc1dadd5a3c01636de6fa691a6839871c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 12/35] fix: keep the whole configured gap between the support
 and the model

---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index 3a270c5..fe9930d 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -169,7 +169,7 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 		}
 
 		// make the layer a bit bigger to create a gap between the support and the model
-		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()/2).ToOneDimension()
+		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()).ToOneDimension()
 
 		// subtract the model from the result
 		actualSupport, ok := cl.Difference(result, biggerLayer)
-- 
2.43.0


From a6499251121fa241dbfe6151f727e091ac1997f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 13/35] fix: generate the support directly below the top layer
 if there is no top gap

---
 modifier/support.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index fe9930d..c2439c9 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -134,8 +134,9 @@ func NewSupportGeneratorModifier(options *data.Options) handler.LayerModifier {
 func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 	var lastSupport []data.LayerPart = nil
 
-	// for each layer starting at the 2nd top layer (the top layer won't need support)
-	for layerNr := len(layers) - 2; layerNr >= 0; layerNr-- {
+	// for each layer starting at the top layer, as always the support for the layer below is calculated
+	// (the top layer itself won't need support)
+	for layerNr := len(layers) - 1; layerNr >= 0; layerNr-- {
 		if !m.options.Print.Support.Enabled || layerNr == 0 {
 			return nil
 		}
-- 
2.43.0


From a16ea5916bdfb723d9977c0d92b1e3e0ca4e130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:46 +0000
Subject: [PATCH 14/35] fix: do not generate any support interface if no
 interface layers are configured

---
 modifier/support.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index c2439c9..d81e3d4 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -197,9 +197,11 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 				return err
 			}
 
-			interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
-			if !ok {
-				return errors.New("error while calculating interface parts")
+			if m.options.Print.Support.InterfaceLayers > 0 {
+				interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
+				if !ok {
+					return errors.New("error while calculating interface parts")
+				}
 			}
 
 			actualWithoutInterfaceParts, ok = c.Difference(actualSupport, interfaceParts)
-- 
2.43.0


From 6b3b50d0ac34374708b5226d6abec68e8e0ac33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 15/35] fix: generate the brim around all pieces of a perimeter

---
 modifier/brim.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index c775d1c..42971da 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -91,10 +91,8 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 
 	for _, part := range perimeters {
 		for _, wall := range part {
-			if len(wall) > 0 {
-				// wall[0] is the outer perimeter
-				allOuterPerimeters = append(allOuterPerimeters, wall[0])
-			}
+			// One wall may consist of several separate pieces.
+			allOuterPerimeters = append(allOuterPerimeters, wall...)
 		}
 	}
 
-- 
2.43.0


From 1541a399aa72c6d6524d10fdb85648a3364aa983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:53 +0000
Subject: [PATCH 16/35] fix: use the outer perimeter speed only for outer
 perimeters

---
 gcode/renderer/perimeter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcode/renderer/perimeter.go b/gcode/renderer/perimeter.go
index 297308a..70985ad 100644
--- a/gcode/renderer/perimeter.go
+++ b/gcode/renderer/perimeter.go
@@ -22,6 +22,9 @@ func (p Perimeter) Render(b *gcode.Builder, layerNr int, maxLayer int, layer dat
 		return nil
 	}
 
+	// The speed of the outer perimeter must not be used for anything else than the outer perimeter.
+	defer b.SetExtrudeSpeed(options.Print.LayerSpeed)
+
 	for _, part := range perimeters {
 		for insetNr := range part {
 			// print the outer perimeter as last perimeter
-- 
2.43.0


From eddf0f4f96688a0c6b8d493190a58691a1fc027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:53 +0000
Subject: [PATCH 17/35] fix: do not move to the origin for a retraction before
 the first move

---
 gcode/builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 2b829fd..1e264e2 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -164,7 +164,9 @@ func (g *Builder) AddPolygon(currentLayer data.PartitionedLayer, polygon data.Pa
 			}
 
 			isCrossing := false
-			if currentLayer != nil && g.retractionSpeed != 0 && g.retractionAmount != 0 {
+			// There is nothing to retract before the first move, and the current position is not known yet.
+			notFirstMove := g.notFirstMoveX || g.notFirstMoveY || g.notFirstMoveZ
+			if notFirstMove && currentLayer != nil && g.retractionSpeed != 0 && g.retractionAmount != 0 {
 				c := clip.NewClipper()
 				var ok bool
 				isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), move)
-- 
2.43.0


From 5220958ddfbd05a3aadbfc34dce0cc853019e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:48 +0000
Subject: [PATCH 18/35] fix: do not lose small extrusions in big prints

---
 gcode/builder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 1e264e2..d09a95b 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -15,7 +15,9 @@ import (
 type Builder struct {
 	buf *bytes.Buffer
 
-	extrusionAmount                                             data.Millimeter
+	// extrusionAmount is the sum of all extrusions in millimeter.
+	// It needs the higher precision as otherwise small extrusions get lost in big prints.
+	extrusionAmount                                             float64
 	extrusionPerMM                                              data.Millimeter
 	currentPosition                                             data.MicroVec3
 	notFirstMoveX                                               bool
@@ -121,7 +123,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 		g.currentSpeed = speed
 	}
 
-	g.extrusionAmount += extrusion
+	g.extrusionAmount += float64(extrusion)
 	if extrusion != 0 {
 		g.buf.WriteString(fmt.Sprintf(" E%0.4f", g.extrusionAmount))
 	}
-- 
2.43.0


From 3785845c25b756b00c4c1bdb417c7541f4af5c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 19/35] fix: do not panic on empty lines in a gcode hunk

---
 data/option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/option.go b/data/option.go
index bbce068..48c4ef4 100644
--- a/data/option.go
+++ b/data/option.go
@@ -141,7 +141,7 @@ func (gch GCodeHunk) GetInstructionCode() []string {
 	var codes []string
 	for _, instruction := range gch.GCodeLines {
 		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
-		if code[0] == 'G' || code[0] == 'M' {
+		if strings.HasPrefix(code, "G") || strings.HasPrefix(code, "M") {
 			codes = append(codes, code)
 		}
 	}
-- 
2.43.0


From 77b9fc52762da4713a76284b23c8b02cf90d23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 20/35] fix: do not treat commented out instructions as
 instructions

---
 data/option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/option.go b/data/option.go
index 48c4ef4..70aa410 100644
--- a/data/option.go
+++ b/data/option.go
@@ -155,7 +155,7 @@ func (gch GCodeHunk) DoesInstructionContainCodes(targetCodes []string) bool {
 	for _, instruction := range gch.GCodeLines {
 		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
 		for _, targetCode := range targetCodes {
-			if strings.Contains(code, targetCode) {
+			if strings.HasPrefix(code, targetCode) {
 				contained = true
 				break
 			}
-- 
2.43.0


From a3d21fbdd3da20270579cf58428cab15a05dc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 21/35] fix: do not set the bed temperature if there is no
 heated bed

---
 gcode/renderer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 4c424ef..90e643c 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -89,7 +89,9 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 		// set the normal temperature
 		// this is done without waiting
 		b.AddComment("SET_TEMP")
-		b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		if options.Printer.HasHeatedBed {
+			b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		}
 		b.AddCommand("M104 S%d", options.Filament.HotEndTemperature)
 	}
 
-- 
2.43.0


From 844cb0d6ef5228a08543f4fe2eb030e050aaba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 22/35] fix: keep percent signs of custom gcode

---
 gcode/builder.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index d09a95b..5259543 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -81,15 +81,17 @@ func (g *Builder) SetRetractionZHop(zHopOnRetract data.Millimeter) {
 }
 
 func (g *Builder) AddCommand(command string, args ...interface{}) {
-	command = command + "\n"
-	command = fmt.Sprintf(command, args...)
-	g.buf.WriteString(command)
+	if len(args) > 0 {
+		command = fmt.Sprintf(command, args...)
+	}
+	g.buf.WriteString(command + "\n")
 }
 
 func (g *Builder) AddComment(comment string, args ...interface{}) {
-	comment = ";" + comment + "\n"
-	comment = fmt.Sprintf(comment, args...)
-	g.buf.WriteString(comment)
+	if len(args) > 0 {
+		comment = fmt.Sprintf(comment, args...)
+	}
+	g.buf.WriteString(";" + comment + "\n")
 }
 
 func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, speed int) {
-- 
2.43.0


From b8d55f083774197720b4d4ebd35b130c76d3b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:55 +0000
Subject: [PATCH 23/35] fix: do not overwrite the path of the caller when
 smoothing it

---
 data/2d.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 586ed97..d1bac37 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -43,7 +43,8 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 		// TODO: check if implementation without recursion would be possible and if it is more performant
 		left := douglasPeucker(points[:idx+1], ep, depth+1)
 		right := douglasPeucker(points[idx:], ep, depth+1)
-		return append(left[:len(left)-1], right...)
+		// limit the capacity, so that the points of the caller are not overwritten
+		return append(left[:len(left)-1:len(left)-1], right...)
 	}
 
 	// If the most distant point fails to pass the threshold test, then just return the two points
-- 
2.43.0


From fdfdfb9ebe27f65724dc114fdc10ab4868d696dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 24/35] fix: keep the tips of spikes when smoothing a path

---
 data/2d.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/data/2d.go b/data/2d.go
index d1bac37..22234eb 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -53,10 +53,7 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 
 func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, maxDist Micrometer) {
 	for i := 0; i < len(points); i++ {
-
-		// TODO: check usage of 'Shortest Distance' from a point to a line segment
-		//       suggested here https://karthaus.nl/rdp/ I think slic3r uses that
-		d := PerpendicularDistance2(p1, p2, points[i])
+		d := segmentDistance2(p1, p2, points[i])
 		if d > maxDist {
 			maxDist = d
 			idx = i
@@ -66,6 +63,19 @@ func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, m
 	return idx, maxDist
 }
 
+// segmentDistance2 calculates the (shortest distance)^2 of a point to the line segment from a to b.
+// In contrast to PerpendicularDistance2 points beyond one of the ends are as far away as they are from that end.
+func segmentDistance2(a, b, point MicroPoint) Micrometer {
+	vecAB := b.Sub(a)
+	if DotProduct(vecAB, point.Sub(a)) < 0 {
+		return point.Sub(a).Size2()
+	}
+	if DotProduct(vecAB, point.Sub(b)) > 0 {
+		return point.Sub(b).Size2()
+	}
+	return PerpendicularDistance2(a, b, point)
+}
+
 // DouglasPeucker is an algorithm for simplifying / smoothing polygons by removing some points.
 // see https://en.wikipedia.org/wiki/Ramer%E2%80%93Douglas%E2%80%93Peucker_algorithm
 func DouglasPeucker(points Path, epsilon Micrometer) Path {
-- 
2.43.0


From 20d3f87d9b01e4f1abd7f2e6279240b70f6d1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:20 +0000
Subject: [PATCH 25/35] fix: slice models which have a layer without any area

If all polygons of a layer were degenerated (e.g. the ridge of a roof which
lies exactly at the height of a layer), clipper had nothing to process and the
whole slicing failed with 'partitioning failed'.
---
 clip/clip.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index d82d4ad..5038f93 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -212,7 +212,10 @@ func (c clipperClipper) GenerateLayerParts(l data.Layer) (data.PartitionedLayer,
 	}
 
 	cl := clipper.NewClipper(clipper.IoNone)
-	cl.AddPaths(polyList, clipper.PtSubject, true)
+	if !cl.AddPaths(polyList, clipper.PtSubject, true) {
+		// None of the polygons covers any area (e.g. a ridge which lies exactly at the height of the layer).
+		return data.NewPartitionedLayer([]data.LayerPart{}), true
+	}
 	resultPolys, ok := cl.Execute2(clipper.CtUnion, clipper.PftEvenOdd, clipper.PftEvenOdd)
 	if !ok {
 		return nil, false
-- 
2.43.0


From 989b8d52521cf5a2e956e2094df14f7172e506f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:10 +0000
Subject: [PATCH 26/35] fix: keep the support inside of holes in the first
 layer if there is a brim

---
 modifier/brim.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index 42971da..6c88e01 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -1,6 +1,7 @@
 package modifier
 
 import (
+	"errors"
 	"fmt"
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
@@ -23,7 +24,7 @@ func (m brimModifier) Init(model data.OptimizedModel) {}
 // as the attribute "brim" to the layer.
 // Additionally the attribute "outerBrim" is generated to make it more easy
 // for other modifiers and renderers to clip with the brim to avoid overlapping.
-// "outerBrim" just contains the outline of the brim (taking into account the line width also).
+// "outerBrim" just contains the area of the brim (taking into account the line width also).
 func NewBrimModifier(options *data.Options) handler.LayerModifier {
 	return &brimModifier{
 		Named: handler.Named{
@@ -129,6 +130,12 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 	// Then the outer brim lines are exset so that the result matches the exact dimension taking into account the extrusion width.
 	outerBrim := cl.InsetLayer(outerBrimLines, -m.options.Printer.ExtrusionWidth, 1, m.options.Printer.ExtrusionWidth/2).ToOneDimension()
 
+	// The brim only surrounds the outlines, it covers nothing inside of them (e.g. the holes of a part).
+	outerBrim, ok := cl.Difference(outerBrim, allOuterPerimeters)
+	if !ok {
+		return errors.New("error while calculating the area of the brim")
+	}
+
 	newLayer := newExtendedLayer(layers[0])
 	if len(brim) > 0 {
 		newLayer.attributes["brim"] = append(brim)
-- 
2.43.0


From 6ec632a6c033a9d39d5be2a0e33503f331c348cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:44 +0000
Subject: [PATCH 27/35] fix: keep fractional speeds instead of truncating them
 to whole mm/s

---
 gcode/builder.go | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 5259543..36e24f4 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -17,15 +17,18 @@ type Builder struct {
 
 	// extrusionAmount is the sum of all extrusions in millimeter.
 	// It needs the higher precision as otherwise small extrusions get lost in big prints.
-	extrusionAmount                                             float64
-	extrusionPerMM                                              data.Millimeter
-	currentPosition                                             data.MicroVec3
-	notFirstMoveX                                               bool
-	notFirstMoveY                                               bool
-	notFirstMoveZ                                               bool
-	moveSpeed, extrudeSpeed, currentSpeed, extrudeSpeedOverride int
-
-	retractionSpeed  int
+	extrusionAmount                               float64
+	extrusionPerMM                                data.Millimeter
+	currentPosition                               data.MicroVec3
+	notFirstMoveX                                 bool
+	notFirstMoveY                                 bool
+	notFirstMoveZ                                 bool
+	moveSpeed, extrudeSpeed, extrudeSpeedOverride data.Millimeter
+
+	// currentFeedrate is the last set speed in mm per minute.
+	currentFeedrate int
+
+	retractionSpeed  data.Millimeter
 	retractionAmount data.Millimeter
 	zHopOnRetract    data.Millimeter
 
@@ -53,15 +56,15 @@ func (g *Builder) SetExtrusion(layerThickness, lineWidth data.Micrometer) {
 }
 
 func (g *Builder) SetMoveSpeed(moveSpeed data.Millimeter) {
-	g.moveSpeed = int(moveSpeed)
+	g.moveSpeed = moveSpeed
 }
 
 func (g *Builder) SetExtrudeSpeed(extrudeSpeed data.Millimeter) {
-	g.extrudeSpeed = int(extrudeSpeed)
+	g.extrudeSpeed = extrudeSpeed
 }
 
 func (g *Builder) SetExtrudeSpeedOverride(extrudeSpeed data.Millimeter) {
-	g.extrudeSpeedOverride = int(extrudeSpeed)
+	g.extrudeSpeedOverride = extrudeSpeed
 }
 
 func (g *Builder) DisableExtrudeSpeedOverride() {
@@ -69,7 +72,7 @@ func (g *Builder) DisableExtrudeSpeedOverride() {
 }
 
 func (g *Builder) SetRetractionSpeed(retractionSpeed data.Millimeter) {
-	g.retractionSpeed = int(retractionSpeed)
+	g.retractionSpeed = retractionSpeed
 }
 
 func (g *Builder) SetRetractionAmount(retractionAmount data.Millimeter) {
@@ -94,7 +97,7 @@ func (g *Builder) AddComment(comment string, args ...interface{}) {
 	g.buf.WriteString(";" + comment + "\n")
 }
 
-func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, speed int) {
+func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, speed data.Millimeter) {
 	notFirstMove := g.notFirstMoveX || g.notFirstMoveY || g.notFirstMoveZ
 	// Ignore moves which are of zero length.
 	if notFirstMove && g.currentPosition.X() == p.X() && g.currentPosition.Y() == p.Y() && g.currentPosition.Z() == p.Z() && extrusion == 0 {
@@ -120,9 +123,9 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 		g.notFirstMoveZ = true
 	}
 
-	if g.currentSpeed != speed {
-		g.buf.WriteString(fmt.Sprintf(" F%v", speed*60))
-		g.currentSpeed = speed
+	if feedrate := int(math.Round(float64(speed) * 60)); g.currentFeedrate != feedrate {
+		g.buf.WriteString(fmt.Sprintf(" F%v", feedrate))
+		g.currentFeedrate = feedrate
 	}
 
 	g.extrusionAmount += float64(extrusion)
@@ -136,7 +139,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 
 func (g *Builder) AddMove(p data.MicroVec3, extrusion data.Millimeter) {
 
-	var speed int
+	var speed data.Millimeter
 	if extrusion != 0 {
 		if g.extrudeSpeedOverride <= 0 {
 			speed = g.extrudeSpeed
-- 
2.43.0


From 533d1e110600c400c63c492ff01f666fc8c5a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:04 +0000
Subject: [PATCH 28/35] fix: do not crash with a support threshold angle of 90
 degrees

---
 modifier/support.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modifier/support.go b/modifier/support.go
index d81e3d4..35321f2 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -72,6 +72,11 @@ func NewSupportDetectorModifier(options *data.Options) handler.LayerModifier {
 }
 
 func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
+	// No overhang is steeper than 90 degrees.
+	if m.options.Print.Support.ThresholdAngle >= 90 {
+		return nil
+	}
+
 	for layerNr := range layers {
 		if !m.options.Print.Support.Enabled {
 			return nil
-- 
2.43.0


From f00a827e0b19345197668bfa9b50e7465c6a046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:25 +0000
Subject: [PATCH 29/35] fix: report options which cannot work as errors instead
 of crashing

---
 clip/linear.go          |  4 ++++
 gcode/renderer/layer.go |  5 +++++
 modifier/perimeter.go   |  4 ++++
 modifier/support.go     | 14 +++++++++-----
 optimizer/optimizer.go  |  5 +++++
 slicer/slicer.go        |  4 ++++
 6 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/clip/linear.go b/clip/linear.go
index 8c9c18a..f3e7819 100644
--- a/clip/linear.go
+++ b/clip/linear.go
@@ -36,6 +36,10 @@ func NewLinearPattern(lineWidth data.Micrometer, lineDistance data.Micrometer, m
 
 // Fill implements the Pattern interface by using simple linear lines as infill.
 func (p linear) Fill(layerNr int, part data.LayerPart) (data.Paths, error) {
+	if p.lineDistance <= 0 {
+		return nil, errors.New("the distance of the lines has to be bigger than 0")
+	}
+
 	rotation := float64(p.degree)
 
 	// for rectlinear fill patterns rotate each 2nd layer by 90 degree.
diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 90e643c..73d0b85 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -3,6 +3,7 @@
 package renderer
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 
@@ -24,6 +25,10 @@ func (PreLayer) Init(model data.OptimizedModel) {}
 
 func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.PartitionedLayer, z data.Micrometer, options *data.Options) error {
 	if layerNr == 0 {
+		if options.Filament.FilamentDiameter <= 0 {
+			return errors.New("the filament diameter has to be bigger than 0")
+		}
+
 		b.AddComment("Generated with GoSlice")
 		b.AddComment("______________________")
 
diff --git a/modifier/perimeter.go b/modifier/perimeter.go
index ef5ff90..47a48e4 100644
--- a/modifier/perimeter.go
+++ b/modifier/perimeter.go
@@ -61,6 +61,10 @@ func Perimeters(layer data.PartitionedLayer) (clip.OffsetResult, error) {
 func (m perimeterModifier) Init(_ data.OptimizedModel) {}
 
 func (m perimeterModifier) Modify(layers []data.PartitionedLayer) error {
+	if m.options.Printer.ExtrusionWidth <= 0 {
+		return errors.New("the extrusion width has to be bigger than 0")
+	}
+
 	for layerNr := range layers {
 		// Generate the perimeters.
 		c := clip.NewClipper()
diff --git a/modifier/support.go b/modifier/support.go
index 35321f2..5d78548 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -72,6 +72,10 @@ func NewSupportDetectorModifier(options *data.Options) handler.LayerModifier {
 }
 
 func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
+	if m.options.Print.Support.Enabled && m.options.Print.Support.ThresholdAngle <= -90 {
+		return errors.New("the support threshold angle has to be bigger than -90")
+	}
+
 	// No overhang is steeper than 90 degrees.
 	if m.options.Print.Support.ThresholdAngle >= 90 {
 		return nil
@@ -197,12 +201,12 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 
 			c := clip.NewClipper()
 
-			supportAboveInterface, err := PartsAttribute(layers[layerNrAboveInterface], "fullSupport")
-			if err != nil {
-				return err
-			}
-
 			if m.options.Print.Support.InterfaceLayers > 0 {
+				supportAboveInterface, err := PartsAttribute(layers[layerNrAboveInterface], "fullSupport")
+				if err != nil {
+					return err
+				}
+
 				interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
 				if !ok {
 					return errors.New("error while calculating interface parts")
diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index a8ae8ef..9f76f80 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -22,6 +22,7 @@
 package optimizer
 
 import (
+	"errors"
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
 )
@@ -41,6 +42,10 @@ func NewOptimizer(options *data.Options) handler.ModelOptimizer {
 type pointHash uint
 
 func (o optimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
+	if o.options.Slicing.MeldDistance <= 0 {
+		return nil, errors.New("the meld distance has to be bigger than 0")
+	}
+
 	om := &optimizedModel{}
 
 	// map of same faces grouped by their calculated hash
diff --git a/slicer/slicer.go b/slicer/slicer.go
index 7dcd3dc..3a773e0 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -32,6 +32,10 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 }
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
+	if s.options.Print.LayerThickness <= 0 {
+		return nil, errors.New("the layer thickness has to be bigger than 0")
+	}
+
 	// The top of the model counts, not its size, as it may not stand directly on the build plate.
 	maxZ := m.Max().Z()
 	if m.FaceCount() == 0 || maxZ < s.options.Print.InitialLayerThickness {
-- 
2.43.0


From d5be21b735d2dd12ee1087d89b38fc2a66e68d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:30 +0000
Subject: [PATCH 30/35] fix: do not go back at the first of many very short
 segments

---
 slicer/layer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/slicer/layer.go b/slicer/layer.go
index c712849..36e4e6f 100644
--- a/slicer/layer.go
+++ b/slicer/layer.go
@@ -71,6 +71,9 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 			//   -> close it as a slicePolygon is finished
 			// * if the segment is already added just continue
 			// then set the next index to the touching segment
+			// If the segments are very short, several of them may be below the threshold. Then the nearest one counts,
+			// as otherwise the way may go back from the first segment to its predecessor.
+			var nextDistance data.Micrometer
 			for _, touchingFaceIndex := range face.TouchingFaceIndices() {
 				touchingSegmentIndex, ok := l.faceToSegmentIndex[touchingFaceIndex]
 				if touchingFaceIndex > -1 && ok {
@@ -84,7 +87,10 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 						if l.segments[touchingSegmentIndex].addedToPolygon {
 							continue
 						}
-						nextIndex = touchingSegmentIndex
+						if distance := diff.Size2(); nextIndex == -1 || distance < nextDistance {
+							nextIndex = touchingSegmentIndex
+							nextDistance = distance
+						}
 					}
 				}
 			}
-- 
2.43.0


From 8d29431975a2db26dafdf663c9f12f23726ac343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:08 +0000
Subject: [PATCH 31/35] fix: remove spikes without any width from offset
 polygons

---
 clip/clip.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index 5038f93..227249c 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -245,20 +245,47 @@ func polyTreeToLayerParts(tree *clipper.PolyTree) []data.LayerPart {
 
 			for _, child := range p.Childs() {
 				// TODO: simplify, yes / no ??
-				holes = append(holes, microPath(child.Contour(), false))
+				holes = append(holes, removeSpikes(microPath(child.Contour(), false)))
 				for _, c := range child.Childs() {
 					polysForNextRound = append(polysForNextRound, c)
 				}
 			}
 
 			// TODO: simplify, yes / no ??
-			layerParts = append(layerParts, data.NewBasicLayerPart(microPath(p.Contour(), false), holes))
+			layerParts = append(layerParts, data.NewBasicLayerPart(removeSpikes(microPath(p.Contour(), false)), holes))
 		}
 	}
 
 	return layerParts
 }
 
+// removeSpikes removes spikes without any width from the polygon.
+// The clipper lib sometimes leaves them when it offsets a polygon at a corner which is nearly straight.
+func removeSpikes(p data.Path) data.Path {
+	for i := 0; i < len(p) && len(p) > 4; {
+		previous, next := (i+len(p)-1)%len(p), (i+1)%len(p)
+		if p[next].Sub(p[previous]).Size2() > 2 {
+			i++
+			continue
+		}
+
+		// Remove the tip and one of the two points at the base, which are nearly the same.
+		result := data.Path{}
+		for j, point := range p {
+			if j != i && j != next {
+				result = append(result, point)
+			}
+		}
+		p = result
+		// The remaining point at the base may be the tip of another spike.
+		if i > 0 {
+			i--
+		}
+	}
+
+	return p
+}
+
 func (c clipperClipper) InsetLayer(layer []data.LayerPart, offset data.Micrometer, insetCount int, initialOffset data.Micrometer) OffsetResult {
 	var result OffsetResult
 	for _, part := range layer {
-- 
2.43.0


From 6d60484fff038512a936659cc4a1b1b1f2e2cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:12 +0000
Subject: [PATCH 32/35] fix: read all solids of an ASCII STL file

---
 reader/reader.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/reader/reader.go b/reader/reader.go
index 59b7480..f816ccf 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -1,8 +1,11 @@
 package reader
 
 import (
+	"bytes"
 	"errors"
+	"io/ioutil"
 	"os"
+	"regexp"
 
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
@@ -19,7 +22,8 @@ func (f face) Points() [3]data.MicroVec3 {
 }
 
 type Model struct {
-	faces []data.Face
+	faces   []data.Face
+	isASCII bool
 }
 
 func (m *Model) SetName(name string) {
@@ -33,8 +37,7 @@ func (m *Model) SetBinaryHeader(header []byte) {
 }
 
 func (m *Model) SetASCII(isASCII bool) {
-	// not used yet
-	return
+	m.isASCII = isASCII
 }
 
 func (m *Model) SetTriangleCount(n uint32) {
@@ -124,12 +127,35 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if _, err := os.Stat(filename); errors.Is(err, os.ErrNotExist) {
 		return model, os.ErrNotExist
 	}
-	if err := stl.CopyFile(filename, model); err != nil {
+	content, err := ioutil.ReadFile(filename)
+	if err != nil {
 		return model, err
 	}
+	if err := stl.CopyAll(bytes.NewReader(content), model); err != nil {
+		return model, err
+	}
+
+	// An ASCII file may contain several solids, but the stl package only reads the first one.
+	for model.isASCII {
+		end := endSolid.FindIndex(content)
+		if end == nil {
+			break
+		}
+		content = bytes.TrimSpace(content[end[1]:])
+		// (The file may even be cut off inside of the first word of the next solid.)
+		if len(content) == 0 || !bytes.HasPrefix(content, []byte("solid")) && !bytes.HasPrefix([]byte("solid"), content) {
+			break
+		}
+		if err := stl.CopyAll(bytes.NewReader(content), model); err != nil {
+			return model, err
+		}
+	}
 	return model, nil
 }
 
+// endSolid matches the last line of a solid in an ASCII file.
+var endSolid = regexp.MustCompile(`(?m)^[ \t]*endsolid\b.*$`)
+
 // stlTriangleToFace converts a triangle from the stl package
 // into a face.
 func stlTriangleToFace(t stl.Triangle) face {
-- 
2.43.0


From c59fd234f40c1bbe2fb800fa6b6d80e7cc8bea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:18 +0000
Subject: [PATCH 33/35] fix: report coordinates which are no numbers instead of
 using any value

---
 reader/reader.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/reader/reader.go b/reader/reader.go
index f816ccf..ac7e2a5 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"io/ioutil"
+	"math"
 	"os"
 	"regexp"
 
@@ -24,6 +25,9 @@ func (f face) Points() [3]data.MicroVec3 {
 type Model struct {
 	faces   []data.Face
 	isASCII bool
+
+	// invalid is true if a coordinate cannot be represented.
+	invalid bool
 }
 
 func (m *Model) SetName(name string) {
@@ -46,6 +50,14 @@ func (m *Model) SetTriangleCount(n uint32) {
 }
 
 func (m *Model) AppendTriangle(t stl.Triangle) {
+	for _, vertex := range t.Vertices {
+		for _, coordinate := range vertex {
+			// (this is also true for NaN)
+			if !(math.Abs(float64(coordinate)) < float64(data.MaxMicrometer)/1000) {
+				m.invalid = true
+			}
+		}
+	}
 	m.faces = append(m.faces, stlTriangleToFace(t))
 }
 
@@ -150,6 +162,9 @@ func (r reader) Read(filename string) (data.Model, error) {
 			return model, err
 		}
 	}
+	if model.invalid {
+		return model, errors.New("the file contains coordinates which are too big or no numbers")
+	}
 	return model, nil
 }
 
-- 
2.43.0


From c0ad16dc0062be28f2b2e2b9629e3144cb05a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:42 +0000
Subject: [PATCH 34/35] fix: connect contours which meet exactly before
 snapping anything together

---
 slicer/layer.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/slicer/layer.go b/slicer/layer.go
index 36e4e6f..93456f5 100644
--- a/slicer/layer.go
+++ b/slicer/layer.go
@@ -109,6 +109,10 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 	// Connect polygons that are not closed yet.
 	// As models are not always perfect manifold we need to join
 	// some stuff up to get proper polygons.
+	// But first connect only pieces which meet exactly. This is needed e.g. for the border of a horizontal face
+	// exactly at the height of the layer, as the faces of two consecutive segments do not touch each other there.
+	// Otherwise short segments would be closed to tiny polygons.
+	snapDistance := data.Micrometer(0)
 RerunConnectPolygons:
 	for i, polygon := range l.polygons {
 		if polygon == nil || l.closed[i] {
@@ -116,7 +120,7 @@ RerunConnectPolygons:
 		}
 
 		best := -1
-		bestScore := joinPolygonSnapDistance + 1
+		bestScore := snapDistance + 1
 		for j, polygon2 := range l.polygons {
 			if polygon2 == nil || l.closed[j] || i == j {
 				continue
@@ -125,7 +129,7 @@ RerunConnectPolygons:
 			// check the distance of the last point from the first unfinished slicePolygon
 			// with the first point of the second unfinished slicePolygon
 			diff := polygon[len(polygon)-1].Sub(polygon2[0])
-			if diff.ShorterThanOrEqual(joinPolygonSnapDistance) {
+			if diff.ShorterThanOrEqual(snapDistance) {
 				score := diff.Size() - data.Micrometer(len(polygon2)*10)
 				if score < bestScore {
 					best = j
@@ -141,7 +145,7 @@ RerunConnectPolygons:
 			}
 
 			// close slicePolygon if the start end end now fits inside the snap distance
-			if l.polygons[i].IsAlmostFinished(joinPolygonSnapDistance) {
+			if l.polygons[i].IsAlmostFinished(snapDistance) {
 				l.removeLastPoint(i)
 				l.closed[i] = true
 			}
@@ -152,6 +156,10 @@ RerunConnectPolygons:
 			goto RerunConnectPolygons
 		}
 	}
+	if snapDistance != joinPolygonSnapDistance {
+		snapDistance = joinPolygonSnapDistance
+		goto RerunConnectPolygons
+	}
 
 	// finish or remove still open polygons
 	var clearedPolygons data.Paths
-- 
2.43.0


From 07b298bd94890f11bc031f6af5808f6753909e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:28 +0000
Subject: [PATCH 35/35] fix: boolean operations returned holes as parts if
 polygons touch each other

---
 clip/clip.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index 227249c..dfb12ee 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -347,8 +347,16 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 	}
 
 	// Parts may overlap each other. Non zero handles them as their union (holes have the opposite direction).
-	tree, ok := cl.Execute2(clipType, clipper.PftNonZero, clipper.PftNonZero)
+	paths, ok := cl.Execute1(clipType, clipper.PftNonZero, clipper.PftNonZero)
+	if !ok || len(paths) == 0 {
+		return nil, ok
+	}
 
+	// If polygons touch each other, clipper sometimes mistakes a hole of the result for an own part.
+	// So let it find out again which of the polygons are holes, now without anything else to do.
+	cl = clipper.NewClipper(clipper.IoNone)
+	cl.AddPaths(paths, clipper.PtSubject, true)
+	tree, ok := cl.Execute2(clipper.CtUnion, clipper.PftEvenOdd, clipper.PftEvenOdd)
 	if !ok {
 		return nil, ok
 	}
-- 
2.43.0

