#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Parallel rendering is free of data races",
  "While an image is sampled, two workers never access the same memory location with one of them writing to it: everything a worker writes is data it allocated itself, its own context (with the rays from its pool), or the accumulators of pixels in the work items it received. Objects, materials, textures, lights, media, cameras and package-level variables are not written while rendering.",
  ["schedules", "inputs"], "every interleaving of the sampling workers, every scene",
  "Tests render a few scenes on one schedule per run and are not run with the race detector; a race shows only on particular interleavings.",
  ["tracer/sampler.go", "tracer/ctx.go", "tracer/scene.go", "tracer/objects/", "tracer/materials/", "tracer/lights/", "tracer/media/", "tracer/cameras/", "texture/"],
  [("one context per goroutine", "tracer/sampler.go"), ("disjoint tiles handed out over a channel", "tracer/sampler.go")],
  ["pixels of the rendered image", "race reports"])
p("C02", "Intersecting an object leaves the ray and the object unchanged",
  "After intersecting any object with a ray, the caller's ray has the same start and direction as before, on every return path and for every nesting of transformed, bounded, combined and wrapped objects. Intersecting, testing insideness and asking for bounds do not modify the object.",
  ["inputs", "histories"], "every object type, nesting, ray and return path",
  "A ray that is not restored only matters for the next object intersected with it, on the few paths that return early; golden images sample few of these.",
  ["tracer/objects/", "tracer/scene.go", "tracer/test/objects.go", "tracer/lights/"],
  [("backup and restore of the ray", "tracer/objects/transformed.go"), ("marching along the ray and resetting its start", "tracer/objects/csg.go")],
  ["Start and Dir of the ray after Intersect"])
p("C03", "Pooled rays are returned exactly once and never used afterwards",
  "Every ray a shader, medium or image function obtains from its context's pool (directly, or through a camera) is handed back to that pool exactly once on every path, and is not read, written or passed on after that. A ray that was merely passed in by the caller is never handed back.",
  ["inputs", "histories"], "every path through every material, medium and camera",
  "A ray that is returned twice or used after being returned is silently shared by two recursion levels; a leak only costs memory. No test looks at the pool.",
  ["tracer/ctx.go", "tracer/scene.go", "tracer/materials/", "tracer/media/", "tracer/cameras/"],
  [("pool of rays", "tracer/ctx.go")], ["rays handed out by the context"])
p("C04", "Recursion is bounded by the scene's depth, and balanced",
  "For every scene with recursion depth N >= 0, evaluating the light field along a ray never nests deeper than N levels; at the limit the result is black and nothing is intersected or shaded. When an evaluation returns, the context's recursion depth is what it was when it was entered, so every sample starts from the same depth.",
  ["inputs", "histories"], "every scene, depth limit and ray",
  "A missing decrement on one path, or a guard that is off by one, shows only in scenes with deep reflections and after particular earlier samples.",
  ["tracer/scene.go", "tracer/ctx.go"], [("depth guard and counter", "tracer/scene.go")], ["nesting of shader calls", "recursion depth of the context"])
p("C05", "One pass samples every pixel of the image exactly once",
  "For every image size and number of passes n, one call to the sampler evaluates each pixel inside the image exactly n times and touches no pixel outside of it; a pixel is worked on by one worker only. The call returns after all workers are done, and can not dead-lock.",
  ["inputs", "schedules", "configurations"], "every image size, number of passes and number of CPUs",
  "Tests use a handful of image sizes; tiles at the right and bottom border of other sizes, and the blocking of the work queue, are not covered.",
  ["tracer/sampler.go"], [("division in tiles", "tracer/sampler.go"), ("wait group and closed buffered channel", "tracer/sampler.go")], ["number of evaluations per pixel"])
p("C06", "The image is the mean of all samples accumulated so far",
  "Each pixel of the sampler's image is the sum of all its non-NaN samples divided by the number of samples taken for it, over all calls so far; a NaN sample never changes the sum. The k-th sample of a pixel is taken as pass k of that pixel, at the centre of the pixel, or when anti-aliasing at a position at most half a pixel away from it; reading the image or the standard deviation changes nothing.",
  ["inputs", "histories"], "every image function and every sequence of sampling calls",
  "Tests compare averages with tolerances of several percent, and hardly call the sampler repeatedly.",
  ["tracer/sampler.go", "imagef/image.go"], [("accumulation per pixel", "tracer/sampler.go")], ["Image()", "StdDev()", "coordinates and context passed to the image function"])
p("C07", "Sample sequences are determined by pixel and pass, and lie in [0,1)",
  "Before a pixel is sampled, every low-discrepancy sequence of the context is re-initialised with that pixel and pass, so the values it generates do not depend on what was rendered before. A sequence element is the fractional part of the radical inverse of the pass (in that dimension's own base) plus the pixel's shift, hence lies in [0,1), and the dimensions used together for one sample do not share bases.",
  ["inputs", "histories"], "every pixel, pass and rendering history",
  "A sequence that is not re-initialised still gives plausible images; tests have tolerances that hide the loss of quality.",
  ["tracer/ctx.go", "tracer/sequence/"], [("initialisation of all sequences", "tracer/ctx.go"), ("Halton sequence with shifts", "tracer/sequence/")], ["values generated by the context's sequences"])
p("C08", "The nearest hit in front of the ray wins",
  "Of all the objects a ray is intersected with (by the scene, a tree of objects, a union or the two solutions of one surface), the result is the hit with the smallest strictly positive T, with that object's own material, normal and local coordinates. Hits that are negative, zero or NaN are never selected, whatever the order of the objects.",
  ["inputs", "configurations"], "every number and order of objects and every combination of hit distances",
  "Which of several hits is nearest depends on the ordering of all T values including negative and NaN ones; images sample few of these orderings.",
  ["tracer/scene.go", "tracer/util.go", "tracer/objects/tree.go", "tracer/objects/csg.go", "tracer/objects/quadric.go"],
  [("front-most selection", "tracer/scene.go, tracer/util.go, tracer/objects/tree.go")], ["HitRecord returned by Intersect", "colour returned by the light field"])
p("C09", "A miss is reported as a miss by every object",
  "When a ray does not hit an object, or none of an object's parts, the record that object returns has a T that is not positive; no internal marker value for 'nothing found' gets out, for no wrapper, combination or tree. Conversely a wrapper that only changes material, local coordinates or orientation reports a hit exactly where, and only where, the wrapped object does.",
  ["inputs", "configurations"], "every object type, every composition and every ray",
  "A wrongly reported far-away hit is visible only when nothing is behind it, or inside a combination that treats it as a solution.",
  ["tracer/objects/", "tracer/scene.go"], [("miss is the zero record", "tracer/objects/")], ["T of the HitRecord"])
p("C10", "Bounding boxes are conservative",
  "The bounding box an object reports contains every point at which it can be hit and every point inside of it, whatever transformations, combinations, groupings or precision conversions were applied. Skipping an object because of its bounding box happens only if the ray, from its start on, does not meet that box.",
  ["inputs", "configurations"], "every composition of objects and every ray",
  "A box that is slightly too small, or a box test that wrongly rejects, removes a few pixels under particular view directions only.",
  ["tracer/objects/boundingbox.go", "tracer/objects/tree.go", "tracer/objects/transformed.go", "tracer/objects/csg.go", "tracer/objects/quadric.go", "tracer/objects/bounded.go", "tracer/objects/mesh.go"],
  [("box arithmetic", "tracer/objects/boundingbox.go"), ("slab test", "tracer/objects/boundingbox.go, tracer/objects/tree.go")], ["Bounds()", "Intersect of bounded, transformed and tree objects"])
p("C11", "Constructive solid geometry follows boolean set algebra",
  "For all solids a and b and every point, the point is inside And(a,b), Or(a,b), Not(a), Difference(a,b) exactly if the boolean combination of being inside a and inside b says so; Hollow is never inside. A hit reported for And lies on the surface of one operand inside the other (for Or: not inside the other, for Restrict: on the first inside the second), at the T, normal and material of that operand's own intersection along the original ray, with the normal flipped for Not.",
  ["inputs", "configurations"], "every pair of solids, point and ray",
  "Tests render some combinations from a few view points.",
  ["tracer/objects/csg.go"], [("marching along the ray", "tracer/objects/csg.go")], ["Inside", "Intersect"])
p("C12", "Vector and colour arithmetic obeys the laws of linear algebra",
  "For all vectors, matrices, colours and scalars: addition, scaling, multiply-add, dot and cross product are component-wise (bi)linear as documented, cross products are orthogonal to both factors and right-handed, a normalized vector is parallel to the original and has length 1, and matrix products associate with matrix-vector products. Colour operations act on each channel separately and identically.",
  ["inputs"], "all real components",
  "Tests check single numeric examples; a swapped component or sign may be invisible for those.",
  ["geom/vec.go", "geom/matrix.go", "geom/util.go", "imagef/colorf/color.go", "tracer/ray.go"], [("vector operations", "geom/vec.go"), ("matrix operations", "geom/matrix.go"), ("colour operations", "imagef/colorf/color.go")], ["results of the operations"])
p("C13", "Affine transforms compose, invert and rotate correctly",
  "For all transforms s and t and points x: applying a composition equals applying its parts in the documented order, the inverse of a transform undoes it for points and directions, and directions ignore translation. A rotation keeps lengths, angles and handedness, leaves the points of its axis through its origin fixed and turns counter-clockwise by the given angle; scaling and re-centring keep the given origin fixed.",
  ["inputs"], "all transforms, axes, angles and points",
  "Tests check a few rotations by right angles; an error that cancels for those remains.",
  ["geom/affinetransform.go", "geom/matrix.go", "util/util.go"], [("composition and inverse", "geom/affinetransform.go"), ("rotation matrix", "geom/affinetransform.go")], ["TransformPoint", "TransformDir"])
p("C14", "Transformed objects, lights and cameras agree with the transform",
  "For every rotation, translation and uniform scaling, a transformed object is hit by a ray exactly where the original is hit by the inversely transformed ray, with the same T, material and local coordinates and the forward transformed normal; it contains a point exactly if the original contains the inversely transformed one; transforming twice equals transforming by the composition. A transformed light emits from the transformed position what the original emits to the inversely transformed target, and a transformed camera's rays are the original's rays, rotated, and moved to the camera position.",
  ["inputs", "configurations"], "every transform, nesting, ray, point and target",
  "Golden images exist for a few transforms only, mostly seen straight on.",
  ["tracer/objects/transformed.go", "tracer/lights/transformed.go", "tracer/cameras/withtransform.go", "api/object.go"], [("forward and inverse transform pair", "tracer/objects/transformed.go")], ["Intersect", "Inside", "Sample", "RayFrom"])
p("C15", "Mirrors, glass and blends conserve energy and follow the reflection laws",
  "For every incident direction and unit normal, the weights given to the reflected and transmitted light of a dielectric are the Fresnel coefficients R and 1-R, with R=1 on total internal reflection, entering and leaving; the reflected ray mirrors the incident one and the refracted ray obeys Snell's law, both of unit length and starting at the proper side of the surface. A blended material is the weighted sum of its parts with exactly the given weights, a tinted one is scaled per channel by its own colour, and a two-sided one shows the material of the side that is seen.",
  ["inputs"], "every incident direction, normal, index of refraction and weight",
  "The refraction test is skipped and the others look at a few pixels-worth of angles.",
  ["tracer/materials/reflective.go", "tracer/materials/refractive.go", "tracer/materials/blend.go", "tracer/materials/transparent.go", "tracer/materials/twosided.go"], [("Fresnel equations", "tracer/materials/refractive.go"), ("reflection", "tracer/materials/reflective.go")], ["colour returned by Shade", "secondary rays traced"])
p("C16", "Direct and indirect light are each counted exactly once",
  "A matte surface shows its reflectivity times the sum, over every light of the scene, of that light's intensity times the cosine of incidence, attenuated by what lies between surface and light, plus the indirect light along one cosine-distributed direction on the side of the surface that is seen; light sources are visible to rays from the camera and from mirrors, but black to indirect rays. An opaque object strictly between surface and light makes the light's contribution zero, a transparent one filters it, and objects beyond the light or behind the surface have no effect.",
  ["inputs", "configurations"], "every scene, light and geometry",
  "Counting a light twice or an occluder behind the light changes the brightness by an amount below most golden-image tolerances.",
  ["tracer/scene.go", "tracer/materials/matte.go"], [("objects with and without lights", "tracer/scene.go"), ("shadow rays", "tracer/scene.go")], ["colour returned by Shade, light field and occlusion test"])
p("C17", "Fog only attenuates camera rays, and never amplifies",
  "A medium changes the colour of primary (camera) rays only; for every other ray it returns the colour unchanged. For primary rays the original colour is weighted with exp(-density*d), d being the length of the part of the ray before the hit that lies inside the fog and never negative, and uniform fog adds its own colour with the complementary weight.",
  ["inputs"], "every ray, hit distance, density and fog height",
  "Tests render fog for three camera positions.",
  ["tracer/media/", "tracer/ctx.go"], [("primary ray test", "tracer/ctx.go"), ("interval intersection", "tracer/media/expfog.go")], ["colour returned by Filter"])
p("C18", "Colour encoding stays in range and is the right curve",
  "For every colour value, including negative and overexposed ones, the encoded 16-bit sRGB value lies in the range of the format and increases with brightness, black encodes to 0 and full intensity to the maximum; decoding is the inverse sRGB curve and continuous at its knee. Image files contain every pixel once, row by row from the top, red green blue, with the image's own width and height in the header.",
  ["inputs"], "every colour value and image",
  "Golden files contain mid-range colours of a few images.",
  ["imagef/colorf/color.go", "imagef/ppm/ppm.go", "imagef/load.go"], [("sRGB curves and clipping", "imagef/colorf/color.go"), ("PPM encoders", "imagef/ppm/ppm.go")], ["RGBA()", "bytes of the PPM file", "loaded image"])
p("C19", "I/O errors are reported, not swallowed",
  "When opening, reading, decoding, encoding, writing or flushing a file or network stream fails, the function that does it returns an error (or ends the program with a message); no such error is discarded or overwritten, so success is never reported for an incomplete output or unread input. Files that were opened are closed on every path.",
  ["fault_sequences", "inputs"], "every I/O call that can fail, and every path after it",
  "No test makes I/O fail.",
  ["imagef/ppm/ppm.go", "imagef/load.go", "api/render.go", "api/server.go", "api/animate.go", "tracer/objects/obj/parser.go", "tracer/objects/ply/parser.go", "cmd/"], [("error returns", "imagef, api, parsers")], ["returned errors"])
p("C20", "Mesh files parse to a valid mesh or an error",
  "For every input file, the PLY and OBJ parsers either return vertices and faces where every face index denotes an existing vertex, with 0-based indices in the order of the file and quads covered by two triangles that share an edge, or they return an error; they never crash and never return a partial mesh without error.",
  ["inputs"], "every byte sequence given as mesh file",
  "Tests parse two well-formed files.",
  ["tracer/objects/ply/parser.go", "tracer/objects/obj/parser.go", "tracer/objects/mesh.go"], [("checks that raise, recovered at the entry point", "parsers")], ["result of ParseFile / Parse"])
p("C21", "The render server bakes one image at a time and never wedges",
  "For all interleavings of preview, bake and cancel requests, at most one bake uses the server's sampler at any time, and the state shared between requests is only touched while holding the server's lock. Whatever happens during a request (an error, a cancellation, or a panic caused by the requested view) the lock is released, and later bake requests are served. A cancel request ends the bake in progress, and is harmless otherwise, however often it is sent.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of HTTP requests, and every failing request",
  "The server has no tests.",
  ["api/server.go"], [("mutex and 'already baking' state", "api/server.go")], ["responses of the HTTP handlers"])
p("C22", "Texture lookups are total and interpolate between neighbours",
  "Looking up an image texture at any coordinates, including NaN, infinite, negative and very large ones, returns a colour without crashing. Inside the unit square nearest lookup returns the closest pixel, and bilinear lookup the weighted mean of the four surrounding pixels with weights that are non-negative and sum to 1; panned and scaled textures look up the correspondingly shifted and scaled coordinates.",
  ["inputs"], "every pair of floating-point coordinates and image size",
  "Tests evaluate textures on a grid inside the unit square.",
  ["texture/"], [("wrap-around and clamping of indices", "texture/interpolation.go")], ["Texture.At"])
p("C23", "Inputs of constructors and image operations are not modified or captured",
  "Building objects, trees, meshes, scenes, views and specs, and post-processing, copying, encoding or converting images never modifies the slices, images, specs or transforms passed as input. A scene or tree built from a list of objects is not affected when the caller re-orders or overwrites that list later, and deriving a moved or rotated camera, object or view does not change the one it was derived from.",
  ["inputs", "histories"], "every call sequence of the public API",
  "Tests use each input once.",
  ["tracer/scene.go", "tracer/objects/", "imagef/", "imagef/post/", "api/", "tracer/cameras/"], [("copies of argument slices", "tracer/scene.go, tracer/objects/tree.go")], ["arguments after the call"])
p("C24", "Views and defaults resolve to a complete, faithful specification",
  "Resolving defaults fills in width, height, camera, passes and recursion when they are unset, keeping the 16:9 default aspect ratio when one dimension is given, and leaves every setting the user made as it is, except for the documented debug modes. Applying a view renders with exactly the view's size, position, direction and debug settings and everything else from the specification, and a scene built from a specification contains all its objects, lights and media.",
  ["configurations", "inputs"], "every specification and view",
  "There are no tests for views and defaults.",
  ["api/spec.go", "api/view.go"], [("default resolution", "api/spec.go"), ("view application", "api/view.go")], ["resolved Spec", "Scene"])
p("C25", "Pixels map to camera rays without distortion, mirroring or gaps",
  "For every image size, pixel borders map linearly onto the horizontal unit interval left to right, and with the same scale onto the vertical interval centred at one half, top row at the top. Cameras at the default position look along -Z with +X to the right and +Y up: the pinhole camera's horizontal field of view spans exactly the image width and all its rays have unit length and pass through the camera position (with an aperture: through the same point of the focal plane for every lens sample), the isometric camera's rays are parallel and unit-spaced by its size, and the environment camera covers the full sphere.",
  ["inputs", "configurations"], "every image size, pixel position, field of view and lens sample",
  "Golden images exist for one image size and a few fields of view.",
  ["tracer/sampler.go", "sampler/util.go", "tracer/cameras/"], [("pixel to camera mapping", "tracer/sampler.go"), ("projections", "tracer/cameras/")], ["coordinates passed to the camera", "rays returned by RayFrom"])
p("C26", "Reported hits lie on the surface, with the right normal",
  "For every sphere, cylinder, triangle and box and every ray, a reported hit point satisfies the equation of the surface and lies within its extent; its normal is perpendicular to the surface and points outward, and a hit that exists in front of the ray is not missed. Being inside a sphere, cylinder or box agrees with that same surface.",
  ["inputs"], "all sizes, positions and rays",
  "Golden images cover a few sizes and view points and tolerate small deviations.",
  ["tracer/objects/quadric.go", "tracer/objects/mesh.go", "tracer/objects/box.go", "tracer/objects/boundingbox.go"], [("ray-surface equations", "tracer/objects/quadric.go, mesh.go, box.go")], ["Intersect", "Inside"])
p("C27", "Meshes are built from exactly the given vertices and faces",
  "A mesh contains one triangle for each given face, connecting exactly the given vertices with their given texture coordinates; each vertex normal is the unit-length average of the normals of the faces that share it, ignoring degenerate ones, and normals and texture coordinates vary linearly over a face, matching the vertices' values at the corners. A parametric surface samples its function over the full closed unit square, and rectangles and quadrilaterals span the documented corners.",
  ["inputs", "configurations"], "every list of vertices and faces and every parametric resolution",
  "Tests render a few meshes without texture or with coarse tolerances.",
  ["tracer/objects/mesh.go"], [("vertex normals", "tracer/objects/mesh.go"), ("barycentric interpolation", "tracer/objects/mesh.go")], ["hit records of the mesh"])
p("C28", "Light sources emit as documented, and match their visible shape",
  "A sampled position of a rectangle or disk light lies on the visible surface of that light; the returned intensity is its surface brightness times its area, times the cosine of emission (zero behind the light), divided by pi and the squared distance; a point light gives its power divided by 4 pi and the squared distance. The visible object of the light has exactly that brightness on its front and black on its back, and the sun's apparent size and direction are those requested.",
  ["inputs"], "every light, target point and random sample",
  "Brightness tests exist for a few targets with large tolerances, and several of the light tests fail or are noisy.",
  ["tracer/lights/"], [("light sampling", "tracer/lights/planar.go"), ("visible object", "tracer/lights/planar.go")], ["Sample()", "Object()"])
p("C29", "Random samples are mapped onto the exact domain they should cover",
  "For every (u,v) in the unit square the disk mapping returns a point of the unit disk whose squared radius is linear in one coordinate and whose angle is linear in the other (hence uniform); the hemisphere mapping returns a unit vector for a unit normal, at most 90 degrees from it, whose projection on the tangent plane is that same disk point in some orthonormal basis, for every orientation of the normal.",
  ["inputs"], "every random pair and every normal",
  "Tests look at some point clouds by eye; special orientations of the normal are not tried.",
  ["tracer/sequence/mappings.go"], [("Malley's method", "tracer/sequence/mappings.go")], ["UniformDisk", "CosineSphere"])
p("C30", "Bloom adds a normalised glow and leaves the rest alone",
  "Post-processing returns a new image of the same size equal to the input plus, for each pixel and channel brighter than the threshold, its excess spread over its neighbourhood by a kernel whose weights sum to the given amplitude, clipped at the image border; a bloom with zero radius or an empty kernel adds nothing and no finite image turns into NaN. Gaussian and Airy kernels are centred and symmetric.",
  ["inputs"], "every image, radius, amplitude and threshold",
  "Golden images exist for one size of kernel and image each.",
  ["imagef/post/"], [("convolution", "imagef/post/convolution.go"), ("parameters", "imagef/post/params.go")], ["resulting image"])
p("C31", "Every query and constructor terminates",
  "Building any scene, mesh or tree, parsing any file, casting any ray and rendering any number of passes ends: every loop has a bound that does not run away and every recursion goes down a finite structure (or is limited by the recursion depth of the scene). This includes many objects with the same position, rays that graze a surface, surfaces that are hit very far away, files that end too early, nested transforms, blends and textures, and worker goroutines waiting for work.",
  ["inputs", "schedules"], "every scene, ray, file, number of objects, image size and number of passes",
  "A test that does not end cannot be told from a slow one, and the inputs that hang are the rare ones (grazing rays, coinciding objects, truncated files).",
  ["tracer/", "api/render.go", "texture/", "imagef/"], [("bounding volume hierarchy", "tracer/objects/tree.go"), ("marching of boolean combinations", "tracer/objects/csg.go"), ("bisection", "tracer/objects/isosurface.go"), ("low-discrepancy sequence", "tracer/sequence/halton.go"), ("parsers", "tracer/objects/ply/parser.go"), ("work queue", "tracer/sampler.go")], ["the call returns"])
p("C32", "Objects are placed and combined as the api says",
  "For every object with finite bounds, Center, CenterTop, CenterBottom, CenterBack and CenterFront are the middle of the bounding box and of its +Y, -Y, -Z and +Z faces (along an axis without bounds on either side, the centre of a box is 0). Translate moves every point of the object by the given vector; WithCenter and WithCenterBottom move it so that that point ends up at the given position; Scale and Rotate keep the centre of the object in place, ScaleAt and RotateAt the given point, and rotations turn right-handed about the given axis; ScaleToSize gives the object the given extent along X. And, Or, AndNot, Restrict, Remove and Difference, and the constructors of the api, give the object that they are named after, with the arguments in the documented order: the same points are inside, and every ray sees the same surface.",
  ["inputs", "configurations"], "every object, bounds, position, angle, factor, ray and point",
  "Tests place a few symmetric objects at a few positions; most of the functions are used in examples only.",
  ["api/object.go", "tracer/objects/boundingbox.go", "tracer/objects/transformed.go", "tracer/objects/csg.go"], [("placement and combination", "api/object.go"), ("centres of a bounding box", "tracer/objects/boundingbox.go")], ["Center", "Inside", "Intersect", "Bounds"])
# properties that are stated but not decided by this family of technique
p("C90", "Rendering converges to the physically correct image",
  "As the number of passes grows, the image converges to the solution of the rendering equation for the scene, at a quasi Monte Carlo rate.",
  ["inputs"], "every scene", "Only a few scenes with loose tolerances.",
  ["tracer/"], [("Monte Carlo integration", "tracer/")], ["image"])
p("C91", "Numerical robustness against rounding",
  "Rounding errors never cause light leaks, self-shadowing (acne) or missed hits: the tiny offsets are large enough for every scene scale.",
  ["inputs"], "every scale and position", "Golden images are at unit scale.",
  ["tracer/ray.go", "tracer/materials/", "tracer/objects/"], [("tiny offset", "tracer/ray.go")], ["image"])
p("C92", "Iterative height-field intersection finds the first crossing",
  "The height-field (iso-surface) object reports the first crossing of the ray with the height function within its tolerance.",
  ["inputs"], "every height function and ray", "Tests use smooth functions.",
  ["tracer/objects/isosurface.go"], [("bisection", "tracer/objects/isosurface.go")], ["Intersect"])
p("C93", "Rendering performance and memory stay bounded",
  "Rendering time is proportional to the number of passes and memory use is bounded, independent of the number of passes.",
  ["inputs"], "every scene", "Timing is not tested.",
  ["tracer/"], [("ray pool", "tracer/ctx.go")], ["time and memory"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
