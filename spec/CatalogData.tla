---- MODULE CatalogData ----
(***************************************************************************)
(* What the reference sample (test/pick-and-mix.sif) shows Synfig giving   *)
(* each type of layer.  Frozen: written by tools/mkcatalog.py.             *)
(*   cls: the name of the class; type, version: attributes of the element; *)
(*   key: the type, in lower case and without underscores, by characters;  *)
(*   params: [name, base (without index), kind, def: kind and default];    *)
(*   todo: parameters of kinds which are not implemented yet.              *)
(***************************************************************************)
Catalog == [
T_advancedoutline |-> [cls |-> "Advanced_Outline", type |-> "advanced_outline", version |-> "0.3",
   key |-> <<"a", "d", "v", "a", "n", "c", "e", "d", "o", "u", "t", "l", "i", "n", "e">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c0,0,0,1"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "invert", base |-> "invert", kind |-> "bool", def |-> "bool false"],
      [name |-> "antialias", base |-> "antialias", kind |-> "bool", def |-> "bool true"],
      [name |-> "feather", base |-> "feather", kind |-> "real", def |-> "real 0"],
      [name |-> "blurtype", base |-> "blurtype", kind |-> "integer", def |-> "integer 1"],
      [name |-> "winding_style", base |-> "winding_style", kind |-> "integer", def |-> "integer 0"],
      [name |-> "width", base |-> "width", kind |-> "real", def |-> "real 0.0166666667"],
      [name |-> "expand", base |-> "expand", kind |-> "real", def |-> "real 0"],
      [name |-> "start_tip", base |-> "start_tip", kind |-> "integer", def |-> "integer 1"],
      [name |-> "end_tip", base |-> "end_tip", kind |-> "integer", def |-> "integer 1"],
      [name |-> "cusp_type", base |-> "cusp_type", kind |-> "integer", def |-> "integer 0"],
      [name |-> "smoothness", base |-> "smoothness", kind |-> "real", def |-> "real 1"],
      [name |-> "homogeneous", base |-> "homogeneous", kind |-> "bool", def |-> "bool true"],
      [name |-> "dash_enabled", base |-> "dash_enabled", kind |-> "bool", def |-> "bool false"],
      [name |-> "dash_offset", base |-> "dash_offset", kind |-> "real", def |-> "real 0"]>>,
   todo |-> {"bline", "wplist", "dilist"}],
T_bevel |-> [cls |-> "Bevel", type |-> "bevel", version |-> "0.2",
   key |-> <<"b", "e", "v", "e", "l">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 0.75"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 13"],
      [name |-> "type", base |-> "type", kind |-> "integer", def |-> "integer 1"],
      [name |-> "color1", base |-> "color1", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "color2", base |-> "color2", kind |-> "color", def |-> "color c0,0,0,1"],
      [name |-> "angle", base |-> "angle", kind |-> "angle", def |-> "angle 135"],
      [name |-> "depth", base |-> "depth", kind |-> "real", def |-> "real 0.2"],
      [name |-> "softness", base |-> "softness", kind |-> "real", def |-> "real 0.1"],
      [name |-> "use_luma", base |-> "use_luma", kind |-> "bool", def |-> "bool false"],
      [name |-> "solid", base |-> "solid", kind |-> "bool", def |-> "bool false"],
      [name |-> "fake_origin", base |-> "fake_origin", kind |-> "vector", def |-> "vector xx=0;y=0"]>>,
   todo |-> {}],
T_blur |-> [cls |-> "Blur", type |-> "blur", version |-> "0.3",
   key |-> <<"b", "l", "u", "r">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 1"],
      [name |-> "size", base |-> "size", kind |-> "vector", def |-> "vector xx=0.1000000015;y=0.1000000015"],
      [name |-> "type", base |-> "type", kind |-> "integer", def |-> "integer 1"]>>,
   todo |-> {}],
T_checkerboard |-> [cls |-> "Checker_Board", type |-> "checker_board", version |-> "0.2",
   key |-> <<"c", "h", "e", "c", "k", "e", "r", "b", "o", "a", "r", "d">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0.125;y=0.125"],
      [name |-> "size", base |-> "size", kind |-> "vector", def |-> "vector xx=0.25;y=0.25"],
      [name |-> "antialias", base |-> "antialias", kind |-> "bool", def |-> "bool true"]>>,
   todo |-> {}],
T_chromakey |-> [cls |-> "Chromakey", type |-> "chromakey", version |-> "0.1",
   key |-> <<"c", "h", "r", "o", "m", "a", "k", "e", "y">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "key_color", base |-> "key_color", kind |-> "color", def |-> "color c0,1,0,1"],
      [name |-> "lower_bound", base |-> "lower_bound", kind |-> "real", def |-> "real 0.001"],
      [name |-> "upper_bound", base |-> "upper_bound", kind |-> "real", def |-> "real 0.001"],
      [name |-> "supersample_width", base |-> "supersample_width", kind |-> "integer", def |-> "integer 2"],
      [name |-> "supersample_height", base |-> "supersample_height", kind |-> "integer", def |-> "integer 2"],
      [name |-> "desaturate", base |-> "desaturate", kind |-> "bool", def |-> "bool true"],
      [name |-> "invert", base |-> "invert", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_circle |-> [cls |-> "Circle", type |-> "circle", version |-> "0.2",
   key |-> <<"c", "i", "r", "c", "l", "e">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "radius", base |-> "radius", kind |-> "real", def |-> "real 1"],
      [name |-> "feather", base |-> "feather", kind |-> "real", def |-> "real 0"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "invert", base |-> "invert", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_clamp |-> [cls |-> "Clamp", type |-> "clamp", version |-> "0.2",
   key |-> <<"c", "l", "a", "m", "p">>,
   params |-> <<[name |-> "invert_negative", base |-> "invert_negative", kind |-> "bool", def |-> "bool false"],
      [name |-> "clamp_ceiling", base |-> "clamp_ceiling", kind |-> "bool", def |-> "bool true"],
      [name |-> "ceiling", base |-> "ceiling", kind |-> "real", def |-> "real 1"],
      [name |-> "floor", base |-> "floor", kind |-> "real", def |-> "real 0"]>>,
   todo |-> {}],
T_colorcorrect |-> [cls |-> "Colorcorrect", type |-> "colorcorrect", version |-> "0.1",
   key |-> <<"c", "o", "l", "o", "r", "c", "o", "r", "r", "e", "c", "t">>,
   params |-> <<[name |-> "hue_adjust", base |-> "hue_adjust", kind |-> "angle", def |-> "angle 0"],
      [name |-> "brightness", base |-> "brightness", kind |-> "real", def |-> "real 0"],
      [name |-> "contrast", base |-> "contrast", kind |-> "real", def |-> "real 1"],
      [name |-> "exposure", base |-> "exposure", kind |-> "real", def |-> "real 0"],
      [name |-> "gamma", base |-> "gamma", kind |-> "real", def |-> "real 1"]>>,
   todo |-> {}],
T_conicalgradient |-> [cls |-> "Conical_Gradient", type |-> "conical_gradient", version |-> "0.2",
   key |-> <<"c", "o", "n", "i", "c", "a", "l", "g", "r", "a", "d", "i", "e", "n", "t">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "gradient", base |-> "gradient", kind |-> "gradient", def |-> "gradient g0:c1,1,1,1;1:c0,0,0,1"],
      [name |-> "center", base |-> "center", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "angle", base |-> "angle", kind |-> "angle", def |-> "angle 0"],
      [name |-> "symmetric", base |-> "symmetric", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_curvegradient |-> [cls |-> "Curve_Gradient", type |-> "curve_gradient", version |-> "0.0",
   key |-> <<"c", "u", "r", "v", "e", "g", "r", "a", "d", "i", "e", "n", "t">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "width", base |-> "width", kind |-> "real", def |-> "real 0.0166666667"],
      [name |-> "gradient", base |-> "gradient", kind |-> "gradient", def |-> "gradient g0:c1,1,1,1;1:c0,0,0,1"],
      [name |-> "loop", base |-> "loop", kind |-> "bool", def |-> "bool false"],
      [name |-> "zigzag", base |-> "zigzag", kind |-> "bool", def |-> "bool false"],
      [name |-> "perpendicular", base |-> "perpendicular", kind |-> "bool", def |-> "bool false"],
      [name |-> "fast", base |-> "fast", kind |-> "bool", def |-> "bool true"]>>,
   todo |-> {"bline"}],
T_curvewarp |-> [cls |-> "Curve_Warp", type |-> "curve_warp", version |-> "0.0",
   key |-> <<"c", "u", "r", "v", "e", "w", "a", "r", "p">>,
   params |-> <<[name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "perp_width", base |-> "perp_width", kind |-> "real", def |-> "real 1"],
      [name |-> "start_point", base |-> "start_point", kind |-> "vector", def |-> "vector xx=-2.5;y=-0.5"],
      [name |-> "end_point", base |-> "end_point", kind |-> "vector", def |-> "vector xx=2.5;y=-0.3000000119"],
      [name |-> "fast", base |-> "fast", kind |-> "bool", def |-> "bool true"]>>,
   todo |-> {"bline"}],
T_duplicate |-> [cls |-> "Duplicate", type |-> "duplicate", version |-> "0.1",
   key |-> <<"d", "u", "p", "l", "i", "c", "a", "t", "e">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"]>>,
   todo |-> {"index"}],
T_filtergroup |-> [cls |-> "Filter_Group", type |-> "filter_group", version |-> "0.1",
   key |-> <<"f", "i", "l", "t", "e", "r", "g", "r", "o", "u", "p">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 1"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "transformation", base |-> "transformation", kind |-> "composite", def |-> "composite kangle=0;offset=xx=0;y=0;scale=xx=1;y=1;skew_angle=0"],
      [name |-> "canvas", base |-> "canvas", kind |-> "canvas", def |-> "canvas 0"],
      [name |-> "time_dilation", base |-> "time_dilation", kind |-> "real", def |-> "real 1"],
      [name |-> "time_offset", base |-> "time_offset", kind |-> "time", def |-> "time t0"],
      [name |-> "children_lock", base |-> "children_lock", kind |-> "bool", def |-> "bool false"],
      [name |-> "outline_grow", base |-> "outline_grow", kind |-> "real", def |-> "real 0"]>>,
   todo |-> {}],
T_freetime |-> [cls |-> "Freetime", type |-> "freetime", version |-> "0.1",
   key |-> <<"f", "r", "e", "e", "t", "i", "m", "e">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "time", base |-> "time", kind |-> "time", def |-> "time t0"]>>,
   todo |-> {}],
T_group |-> [cls |-> "Group", type |-> "group", version |-> "0.3",
   key |-> <<"g", "r", "o", "u", "p">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "transformation", base |-> "transformation", kind |-> "composite", def |-> "composite kangle=0;offset=xx=0;y=0;scale=xx=1;y=1;skew_angle=0"],
      [name |-> "canvas", base |-> "canvas", kind |-> "canvas", def |-> "canvas 0"],
      [name |-> "time_dilation", base |-> "time_dilation", kind |-> "real", def |-> "real 1"],
      [name |-> "time_offset", base |-> "time_offset", kind |-> "time", def |-> "time t0"],
      [name |-> "children_lock", base |-> "children_lock", kind |-> "bool", def |-> "bool false"],
      [name |-> "outline_grow", base |-> "outline_grow", kind |-> "real", def |-> "real 0"],
      [name |-> "z_range", base |-> "z_range", kind |-> "bool", def |-> "bool false"],
      [name |-> "z_range_position", base |-> "z_range_position", kind |-> "real", def |-> "real 0"],
      [name |-> "z_range_depth", base |-> "z_range_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "z_range_blur", base |-> "z_range_blur", kind |-> "real", def |-> "real 0"]>>,
   todo |-> {}],
T_halftone2 |-> [cls |-> "Halftone2", type |-> "halftone2", version |-> "0.0",
   key |-> <<"h", "a", "l", "f", "t", "o", "n", "e", "2">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 1"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "angle", base |-> "angle", kind |-> "angle", def |-> "angle 0"],
      [name |-> "size", base |-> "size", kind |-> "vector", def |-> "vector xx=0.25;y=0.25"],
      [name |-> "color_light", base |-> "color_light", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "color_dark", base |-> "color_dark", kind |-> "color", def |-> "color c0,0,0,1"],
      [name |-> "type", base |-> "type", kind |-> "integer", def |-> "integer 0"]>>,
   todo |-> {}],
T_halftone3 |-> [cls |-> "Halftone3", type |-> "halftone3", version |-> "0.0",
   key |-> <<"h", "a", "l", "f", "t", "o", "n", "e", "3">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 1"],
      [name |-> "size", base |-> "size", kind |-> "vector", def |-> "vector xx=0.25;y=0.25"],
      [name |-> "type", base |-> "type", kind |-> "integer", def |-> "integer 0"],
      [name |-> "subtractive", base |-> "subtractive", kind |-> "bool", def |-> "bool true"],
      [name |-> "color[0]", base |-> "color", kind |-> "color", def |-> "color c0,1,1,1"],
      [name |-> "tone[0].origin", base |-> "tone", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "tone[0].angle", base |-> "tone", kind |-> "angle", def |-> "angle 0"],
      [name |-> "color[1]", base |-> "color", kind |-> "color", def |-> "color c1,0,1,1"],
      [name |-> "tone[1].origin", base |-> "tone", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "tone[1].angle", base |-> "tone", kind |-> "angle", def |-> "angle 30"],
      [name |-> "color[2]", base |-> "color", kind |-> "color", def |-> "color c1,1,0,1"],
      [name |-> "tone[2].origin", base |-> "tone", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "tone[2].angle", base |-> "tone", kind |-> "angle", def |-> "angle 60"]>>,
   todo |-> {}],
T_import |-> [cls |-> "Import", type |-> "import", version |-> "0.1",
   key |-> <<"i", "m", "p", "o", "r", "t">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "tl", base |-> "tl", kind |-> "vector", def |-> "vector xx=-0.5333333611;y=0.5333333611"],
      [name |-> "br", base |-> "br", kind |-> "vector", def |-> "vector xx=0.5333333611;y=-0.5333333611"],
      [name |-> "c", base |-> "c", kind |-> "integer", def |-> "integer 1"],
      [name |-> "gamma_adjust", base |-> "gamma_adjust", kind |-> "real", def |-> "real 1"],
      [name |-> "filename", base |-> "filename", kind |-> "string", def |-> "string sdrop.png"],
      [name |-> "time_offset", base |-> "time_offset", kind |-> "time", def |-> "time t0"]>>,
   todo |-> {}],
T_insideout |-> [cls |-> "Inside_Out", type |-> "inside_out", version |-> "0.1",
   key |-> <<"i", "n", "s", "i", "d", "e", "o", "u", "t">>,
   params |-> <<[name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"]>>,
   todo |-> {}],
T_julia |-> [cls |-> "Julia", type |-> "julia", version |-> "0.1",
   key |-> <<"j", "u", "l", "i", "a">>,
   params |-> <<[name |-> "icolor", base |-> "icolor", kind |-> "color", def |-> "color c0,0,0,1"],
      [name |-> "ocolor", base |-> "ocolor", kind |-> "color", def |-> "color c0,0,0,1"],
      [name |-> "color_shift", base |-> "color_shift", kind |-> "angle", def |-> "angle 0"],
      [name |-> "iterations", base |-> "iterations", kind |-> "integer", def |-> "integer 32"],
      [name |-> "seed", base |-> "seed", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "bailout", base |-> "bailout", kind |-> "real", def |-> "real 2"],
      [name |-> "distort_inside", base |-> "distort_inside", kind |-> "bool", def |-> "bool true"],
      [name |-> "shade_inside", base |-> "shade_inside", kind |-> "bool", def |-> "bool true"],
      [name |-> "solid_inside", base |-> "solid_inside", kind |-> "bool", def |-> "bool false"],
      [name |-> "invert_inside", base |-> "invert_inside", kind |-> "bool", def |-> "bool false"],
      [name |-> "color_inside", base |-> "color_inside", kind |-> "bool", def |-> "bool true"],
      [name |-> "distort_outside", base |-> "distort_outside", kind |-> "bool", def |-> "bool true"],
      [name |-> "shade_outside", base |-> "shade_outside", kind |-> "bool", def |-> "bool true"],
      [name |-> "solid_outside", base |-> "solid_outside", kind |-> "bool", def |-> "bool false"],
      [name |-> "invert_outside", base |-> "invert_outside", kind |-> "bool", def |-> "bool false"],
      [name |-> "color_outside", base |-> "color_outside", kind |-> "bool", def |-> "bool false"],
      [name |-> "color_cycle", base |-> "color_cycle", kind |-> "bool", def |-> "bool false"],
      [name |-> "smooth_outside", base |-> "smooth_outside", kind |-> "bool", def |-> "bool true"],
      [name |-> "broken", base |-> "broken", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_lineargradient |-> [cls |-> "Linear_Gradient", type |-> "linear_gradient", version |-> "0.1",
   key |-> <<"l", "i", "n", "e", "a", "r", "g", "r", "a", "d", "i", "e", "n", "t">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "p1", base |-> "p1", kind |-> "vector", def |-> "vector xx=1;y=1"],
      [name |-> "p2", base |-> "p2", kind |-> "vector", def |-> "vector xx=-1;y=-1"],
      [name |-> "gradient", base |-> "gradient", kind |-> "gradient", def |-> "gradient g0:c1,1,1,1;1:c0,0,0,1"],
      [name |-> "loop", base |-> "loop", kind |-> "bool", def |-> "bool false"],
      [name |-> "zigzag", base |-> "zigzag", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_lumakey |-> [cls |-> "Lumakey", type |-> "lumakey", version |-> "0.2",
   key |-> <<"l", "u", "m", "a", "k", "e", "y">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"]>>,
   todo |-> {}],
T_mandelbrot |-> [cls |-> "Mandelbrot", type |-> "mandelbrot", version |-> "0.2",
   key |-> <<"m", "a", "n", "d", "e", "l", "b", "r", "o", "t">>,
   params |-> <<[name |-> "iterations", base |-> "iterations", kind |-> "integer", def |-> "integer 32"],
      [name |-> "bailout", base |-> "bailout", kind |-> "real", def |-> "real 2"],
      [name |-> "broken", base |-> "broken", kind |-> "bool", def |-> "bool false"],
      [name |-> "distort_inside", base |-> "distort_inside", kind |-> "bool", def |-> "bool true"],
      [name |-> "shade_inside", base |-> "shade_inside", kind |-> "bool", def |-> "bool true"],
      [name |-> "solid_inside", base |-> "solid_inside", kind |-> "bool", def |-> "bool false"],
      [name |-> "invert_inside", base |-> "invert_inside", kind |-> "bool", def |-> "bool false"],
      [name |-> "gradient_inside", base |-> "gradient_inside", kind |-> "gradient", def |-> "gradient g0:c1,0,0,1;1:c1,1,0,1"],
      [name |-> "gradient_offset_inside", base |-> "gradient_offset_inside", kind |-> "real", def |-> "real 0"],
      [name |-> "gradient_loop_inside", base |-> "gradient_loop_inside", kind |-> "bool", def |-> "bool true"],
      [name |-> "distort_outside", base |-> "distort_outside", kind |-> "bool", def |-> "bool true"],
      [name |-> "shade_outside", base |-> "shade_outside", kind |-> "bool", def |-> "bool true"],
      [name |-> "solid_outside", base |-> "solid_outside", kind |-> "bool", def |-> "bool false"],
      [name |-> "invert_outside", base |-> "invert_outside", kind |-> "bool", def |-> "bool false"],
      [name |-> "gradient_outside", base |-> "gradient_outside", kind |-> "gradient", def |-> "gradient g0:c0,0,0,0;1:c0,0,0,1"],
      [name |-> "smooth_outside", base |-> "smooth_outside", kind |-> "bool", def |-> "bool true"],
      [name |-> "gradient_offset_outside", base |-> "gradient_offset_outside", kind |-> "real", def |-> "real 0"],
      [name |-> "gradient_scale_outside", base |-> "gradient_scale_outside", kind |-> "real", def |-> "real 1"]>>,
   todo |-> {}],
T_metaballs |-> [cls |-> "Metaballs", type |-> "metaballs", version |-> "0.1",
   key |-> <<"m", "e", "t", "a", "b", "a", "l", "l", "s">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "gradient", base |-> "gradient", kind |-> "gradient", def |-> "gradient g0:c1,1,1,1;1:c0,0,0,1"],
      [name |-> "threshold", base |-> "threshold", kind |-> "real", def |-> "real 0"],
      [name |-> "threshold2", base |-> "threshold2", kind |-> "real", def |-> "real 1"],
      [name |-> "positive", base |-> "positive", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {"centers", "radii", "weights"}],
T_motionblur |-> [cls |-> "Motion_Blur", type |-> "motion_blur", version |-> "0.2",
   key |-> <<"m", "o", "t", "i", "o", "n", "b", "l", "u", "r">>,
   params |-> <<[name |-> "aperture", base |-> "aperture", kind |-> "time", def |-> "time t24000"],
      [name |-> "subsamples_factor", base |-> "subsamples_factor", kind |-> "real", def |-> "real 1"],
      [name |-> "subsampling_type", base |-> "subsampling_type", kind |-> "integer", def |-> "integer 2"],
      [name |-> "subsample_start", base |-> "subsample_start", kind |-> "real", def |-> "real 0"],
      [name |-> "subsample_end", base |-> "subsample_end", kind |-> "real", def |-> "real 1"]>>,
   todo |-> {}],
T_noise |-> [cls |-> "Noise", type |-> "noise", version |-> "0.0",
   key |-> <<"n", "o", "i", "s", "e">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "gradient", base |-> "gradient", kind |-> "gradient", def |-> "gradient g0:c1,1,1,1;1:c0,0,0,1"],
      [name |-> "seed", base |-> "seed", kind |-> "integer", def |-> "integer 1700432620"],
      [name |-> "size", base |-> "size", kind |-> "vector", def |-> "vector xx=1;y=1"],
      [name |-> "smooth", base |-> "smooth", kind |-> "integer", def |-> "integer 2"],
      [name |-> "detail", base |-> "detail", kind |-> "integer", def |-> "integer 4"],
      [name |-> "speed", base |-> "speed", kind |-> "real", def |-> "real 0"],
      [name |-> "turbulent", base |-> "turbulent", kind |-> "bool", def |-> "bool false"],
      [name |-> "do_alpha", base |-> "do_alpha", kind |-> "bool", def |-> "bool false"],
      [name |-> "super_sample", base |-> "super_sample", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_noisedistort |-> [cls |-> "Noise_Distort", type |-> "noise_distort", version |-> "0.0",
   key |-> <<"n", "o", "i", "s", "e", "d", "i", "s", "t", "o", "r", "t">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 1"],
      [name |-> "displacement", base |-> "displacement", kind |-> "vector", def |-> "vector xx=0.25;y=0.25"],
      [name |-> "size", base |-> "size", kind |-> "vector", def |-> "vector xx=1;y=1"],
      [name |-> "seed", base |-> "seed", kind |-> "integer", def |-> "integer 1700432512"],
      [name |-> "smooth", base |-> "smooth", kind |-> "integer", def |-> "integer 2"],
      [name |-> "detail", base |-> "detail", kind |-> "integer", def |-> "integer 4"],
      [name |-> "speed", base |-> "speed", kind |-> "real", def |-> "real 0"],
      [name |-> "turbulent", base |-> "turbulent", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_outline |-> [cls |-> "Outline", type |-> "outline", version |-> "0.3",
   key |-> <<"o", "u", "t", "l", "i", "n", "e">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c0,0,0,1"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "invert", base |-> "invert", kind |-> "bool", def |-> "bool false"],
      [name |-> "antialias", base |-> "antialias", kind |-> "bool", def |-> "bool true"],
      [name |-> "feather", base |-> "feather", kind |-> "real", def |-> "real 0"],
      [name |-> "blurtype", base |-> "blurtype", kind |-> "integer", def |-> "integer 1"],
      [name |-> "winding_style", base |-> "winding_style", kind |-> "integer", def |-> "integer 0"],
      [name |-> "width", base |-> "width", kind |-> "real", def |-> "real 0.0166666667"],
      [name |-> "expand", base |-> "expand", kind |-> "real", def |-> "real 0"],
      [name |-> "sharp_cusps", base |-> "sharp_cusps", kind |-> "bool", def |-> "bool true"],
      [name |-> "round_tip[0]", base |-> "round_tip", kind |-> "bool", def |-> "bool true"],
      [name |-> "round_tip[1]", base |-> "round_tip", kind |-> "bool", def |-> "bool true"],
      [name |-> "homogeneous_width", base |-> "homogeneous_width", kind |-> "bool", def |-> "bool true"]>>,
   todo |-> {"bline"}],
T_plant |-> [cls |-> "Plant", type |-> "plant", version |-> "0.2",
   key |-> <<"p", "l", "a", "n", "t">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "gradient", base |-> "gradient", kind |-> "gradient", def |-> "gradient g0:c1,1,1,1;1:c0,0,0,1"],
      [name |-> "split_angle", base |-> "split_angle", kind |-> "angle", def |-> "angle 10"],
      [name |-> "gravity", base |-> "gravity", kind |-> "vector", def |-> "vector xx=0;y=-0.1000000015"],
      [name |-> "velocity", base |-> "velocity", kind |-> "real", def |-> "real 0.3"],
      [name |-> "perp_velocity", base |-> "perp_velocity", kind |-> "real", def |-> "real 0"],
      [name |-> "size", base |-> "size", kind |-> "real", def |-> "real 0.015"],
      [name |-> "size_as_alpha", base |-> "size_as_alpha", kind |-> "bool", def |-> "bool false"],
      [name |-> "reverse", base |-> "reverse", kind |-> "bool", def |-> "bool true"],
      [name |-> "step", base |-> "step", kind |-> "real", def |-> "real 0.01"],
      [name |-> "seed", base |-> "seed", kind |-> "integer", def |-> "integer 1700432811"],
      [name |-> "splits", base |-> "splits", kind |-> "integer", def |-> "integer 5"],
      [name |-> "sprouts", base |-> "sprouts", kind |-> "integer", def |-> "integer 10"],
      [name |-> "random_factor", base |-> "random_factor", kind |-> "real", def |-> "real 0.2"],
      [name |-> "drag", base |-> "drag", kind |-> "real", def |-> "real 0.1"],
      [name |-> "use_width", base |-> "use_width", kind |-> "bool", def |-> "bool true"]>>,
   todo |-> {"bline"}],
T_polygon |-> [cls |-> "Polygon", type |-> "polygon", version |-> "0.1",
   key |-> <<"p", "o", "l", "y", "g", "o", "n">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "invert", base |-> "invert", kind |-> "bool", def |-> "bool false"],
      [name |-> "antialias", base |-> "antialias", kind |-> "bool", def |-> "bool true"],
      [name |-> "feather", base |-> "feather", kind |-> "real", def |-> "real 0"],
      [name |-> "blurtype", base |-> "blurtype", kind |-> "integer", def |-> "integer 1"],
      [name |-> "winding_style", base |-> "winding_style", kind |-> "integer", def |-> "integer 0"]>>,
   todo |-> {"vector_list"}],
T_radialblur |-> [cls |-> "Radial_Blur", type |-> "radial_blur", version |-> "0.1",
   key |-> <<"r", "a", "d", "i", "a", "l", "b", "l", "u", "r">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 1"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "size", base |-> "size", kind |-> "real", def |-> "real 0.2"],
      [name |-> "fade_out", base |-> "fade_out", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_radialgradient |-> [cls |-> "Radial_Gradient", type |-> "radial_gradient", version |-> "0.2",
   key |-> <<"r", "a", "d", "i", "a", "l", "g", "r", "a", "d", "i", "e", "n", "t">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "gradient", base |-> "gradient", kind |-> "gradient", def |-> "gradient g0:c1,1,1,1;1:c0,0,0,1"],
      [name |-> "center", base |-> "center", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "radius", base |-> "radius", kind |-> "real", def |-> "real 0.5"],
      [name |-> "loop", base |-> "loop", kind |-> "bool", def |-> "bool false"],
      [name |-> "zigzag", base |-> "zigzag", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_rectangle |-> [cls |-> "Rectangle", type |-> "rectangle", version |-> "0.2",
   key |-> <<"r", "e", "c", "t", "a", "n", "g", "l", "e">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "point1", base |-> "point1", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "point2", base |-> "point2", kind |-> "vector", def |-> "vector xx=1;y=1"],
      [name |-> "expand", base |-> "expand", kind |-> "real", def |-> "real 0"],
      [name |-> "invert", base |-> "invert", kind |-> "bool", def |-> "bool false"],
      [name |-> "feather_x", base |-> "feather_x", kind |-> "real", def |-> "real 0"],
      [name |-> "feather_y", base |-> "feather_y", kind |-> "real", def |-> "real 0"],
      [name |-> "bevel", base |-> "bevel", kind |-> "real", def |-> "real 0"],
      [name |-> "bevCircle", base |-> "bevCircle", kind |-> "bool", def |-> "bool true"]>>,
   todo |-> {}],
T_region |-> [cls |-> "Region", type |-> "region", version |-> "0.1",
   key |-> <<"r", "e", "g", "i", "o", "n">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "invert", base |-> "invert", kind |-> "bool", def |-> "bool false"],
      [name |-> "antialias", base |-> "antialias", kind |-> "bool", def |-> "bool true"],
      [name |-> "feather", base |-> "feather", kind |-> "real", def |-> "real 0"],
      [name |-> "blurtype", base |-> "blurtype", kind |-> "integer", def |-> "integer 1"],
      [name |-> "winding_style", base |-> "winding_style", kind |-> "integer", def |-> "integer 0"]>>,
   todo |-> {"bline"}],
T_rotate |-> [cls |-> "Rotate", type |-> "rotate", version |-> "0.1",
   key |-> <<"r", "o", "t", "a", "t", "e">>,
   params |-> <<[name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "amount", base |-> "amount", kind |-> "angle", def |-> "angle 0"]>>,
   todo |-> {}],
T_shade |-> [cls |-> "Shade", type |-> "shade", version |-> "0.2",
   key |-> <<"s", "h", "a", "d", "e">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 0.75"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 12"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0.200000003;y=-0.200000003"],
      [name |-> "size", base |-> "size", kind |-> "vector", def |-> "vector xx=0.1000000015;y=0.1000000015"],
      [name |-> "type", base |-> "type", kind |-> "integer", def |-> "integer 1"],
      [name |-> "invert", base |-> "invert", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_simplecircle |-> [cls |-> "Simple_Circle", type |-> "simple_circle", version |-> "0.1",
   key |-> <<"s", "i", "m", "p", "l", "e", "c", "i", "r", "c", "l", "e">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "center", base |-> "center", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "radius", base |-> "radius", kind |-> "real", def |-> "real 0.5"]>>,
   todo |-> {}],
T_skeleton |-> [cls |-> "Skeleton", type |-> "skeleton", version |-> "0.1",
   key |-> <<"s", "k", "e", "l", "e", "t", "o", "n">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 0.5"],
      [name |-> "name", base |-> "name", kind |-> "string", def |-> "string sskeleton"]>>,
   todo |-> {"bones"}],
T_skeletondeformation |-> [cls |-> "Skeleton_Deformation", type |-> "skeleton_deformation", version |-> "0.2",
   key |-> <<"s", "k", "e", "l", "e", "t", "o", "n", "d", "e", "f", "o", "r", "m", "a", "t", "i", "o", "n">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 1"],
      [name |-> "point1", base |-> "point1", kind |-> "vector", def |-> "vector xx=-4;y=4"],
      [name |-> "point2", base |-> "point2", kind |-> "vector", def |-> "vector xx=4;y=-4"],
      [name |-> "x_subdivisions", base |-> "x_subdivisions", kind |-> "integer", def |-> "integer 32"],
      [name |-> "y_subdivisions", base |-> "y_subdivisions", kind |-> "integer", def |-> "integer 32"]>>,
   todo |-> {"bones"}],
T_solidcolor |-> [cls |-> "Solid_Color", type |-> "solid_color", version |-> "0.1",
   key |-> <<"s", "o", "l", "i", "d", "c", "o", "l", "o", "r">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c1,1,1,1"]>>,
   todo |-> {}],
T_sound |-> [cls |-> "Sound", type |-> "sound", version |-> "0.1",
   key |-> <<"s", "o", "u", "n", "d">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "filename", base |-> "filename", kind |-> "string", def |-> "string slaser.wav"],
      [name |-> "delay", base |-> "delay", kind |-> "time", def |-> "time t0"],
      [name |-> "volume", base |-> "volume", kind |-> "real", def |-> "real 1"]>>,
   todo |-> {}],
T_spherize |-> [cls |-> "Spherize", type |-> "spherize", version |-> "0.2",
   key |-> <<"s", "p", "h", "e", "r", "i", "z", "e">>,
   params |-> <<[name |-> "center", base |-> "center", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "radius", base |-> "radius", kind |-> "real", def |-> "real 1"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "clip", base |-> "clip", kind |-> "bool", def |-> "bool false"],
      [name |-> "type", base |-> "type", kind |-> "integer", def |-> "integer 0"]>>,
   todo |-> {}],
T_spiralgradient |-> [cls |-> "Spiral_Gradient", type |-> "spiral_gradient", version |-> "0.2",
   key |-> <<"s", "p", "i", "r", "a", "l", "g", "r", "a", "d", "i", "e", "n", "t">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "gradient", base |-> "gradient", kind |-> "gradient", def |-> "gradient g0:c1,1,1,1;1:c0,0,0,1"],
      [name |-> "center", base |-> "center", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "radius", base |-> "radius", kind |-> "real", def |-> "real 0.5"],
      [name |-> "angle", base |-> "angle", kind |-> "angle", def |-> "angle 0"],
      [name |-> "clockwise", base |-> "clockwise", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_star |-> [cls |-> "Star", type |-> "star", version |-> "0.1",
   key |-> <<"s", "t", "a", "r">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "invert", base |-> "invert", kind |-> "bool", def |-> "bool false"],
      [name |-> "antialias", base |-> "antialias", kind |-> "bool", def |-> "bool true"],
      [name |-> "feather", base |-> "feather", kind |-> "real", def |-> "real 0"],
      [name |-> "blurtype", base |-> "blurtype", kind |-> "integer", def |-> "integer 1"],
      [name |-> "winding_style", base |-> "winding_style", kind |-> "integer", def |-> "integer 0"],
      [name |-> "radius1", base |-> "radius1", kind |-> "real", def |-> "real 1"],
      [name |-> "radius2", base |-> "radius2", kind |-> "real", def |-> "real 0.38"],
      [name |-> "angle", base |-> "angle", kind |-> "angle", def |-> "angle 90"],
      [name |-> "points", base |-> "points", kind |-> "integer", def |-> "integer 5"],
      [name |-> "regular_polygon", base |-> "regular_polygon", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_stretch |-> [cls |-> "Stretch", type |-> "stretch", version |-> "0.1",
   key |-> <<"s", "t", "r", "e", "t", "c", "h">>,
   params |-> <<[name |-> "amount", base |-> "amount", kind |-> "vector", def |-> "vector xx=1;y=1"],
      [name |-> "center", base |-> "center", kind |-> "vector", def |-> "vector xx=0;y=0"]>>,
   todo |-> {}],
T_stroboscope |-> [cls |-> "Stroboscope", type |-> "stroboscope", version |-> "0.1",
   key |-> <<"s", "t", "r", "o", "b", "o", "s", "c", "o", "p", "e">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "frequency", base |-> "frequency", kind |-> "real", def |-> "real 2"]>>,
   todo |-> {}],
T_supersample |-> [cls |-> "Super_Sample", type |-> "super_sample", version |-> "0.2",
   key |-> <<"s", "u", "p", "e", "r", "s", "a", "m", "p", "l", "e">>,
   params |-> <<[name |-> "width", base |-> "width", kind |-> "integer", def |-> "integer 2"],
      [name |-> "height", base |-> "height", kind |-> "integer", def |-> "integer 2"]>>,
   todo |-> {}],
T_switch |-> [cls |-> "Switch", type |-> "switch", version |-> "0.0",
   key |-> <<"s", "w", "i", "t", "c", "h">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "transformation", base |-> "transformation", kind |-> "composite", def |-> "composite kangle=0;offset=xx=0;y=0;scale=xx=1;y=1;skew_angle=0"],
      [name |-> "time_dilation", base |-> "time_dilation", kind |-> "real", def |-> "real 1"],
      [name |-> "time_offset", base |-> "time_offset", kind |-> "time", def |-> "time t0"],
      [name |-> "children_lock", base |-> "children_lock", kind |-> "bool", def |-> "bool true"],
      [name |-> "outline_grow", base |-> "outline_grow", kind |-> "real", def |-> "real 0"],
      [name |-> "layer_name", base |-> "layer_name", kind |-> "string", def |-> "string sdrop.png"],
      [name |-> "layer_depth", base |-> "layer_depth", kind |-> "integer", def |-> "integer -1"]>>,
   todo |-> {"canvas"}],
T_text |-> [cls |-> "Text", type |-> "text", version |-> "0.5",
   key |-> <<"t", "e", "x", "t">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "text", base |-> "text", kind |-> "string", def |-> "string sHello wombat!"],
      [name |-> "color", base |-> "color", kind |-> "color", def |-> "color c1,1,1,1"],
      [name |-> "family", base |-> "family", kind |-> "string", def |-> "string sSans Serif"],
      [name |-> "style", base |-> "style", kind |-> "integer", def |-> "integer 0"],
      [name |-> "weight", base |-> "weight", kind |-> "integer", def |-> "integer 400"],
      [name |-> "direction", base |-> "direction", kind |-> "integer", def |-> "integer 0"],
      [name |-> "compress", base |-> "compress", kind |-> "real", def |-> "real 1"],
      [name |-> "vcompress", base |-> "vcompress", kind |-> "real", def |-> "real 1"],
      [name |-> "size", base |-> "size", kind |-> "vector", def |-> "vector xx=0.25;y=0.25"],
      [name |-> "orient", base |-> "orient", kind |-> "vector", def |-> "vector xx=0.5;y=0.5"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "use_kerning", base |-> "use_kerning", kind |-> "bool", def |-> "bool true"],
      [name |-> "grid_fit", base |-> "grid_fit", kind |-> "bool", def |-> "bool false"],
      [name |-> "invert", base |-> "invert", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_timeloop |-> [cls |-> "Timeloop", type |-> "timeloop", version |-> "0.2",
   key |-> <<"t", "i", "m", "e", "l", "o", "o", "p">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "link_time", base |-> "link_time", kind |-> "time", def |-> "time t0"],
      [name |-> "local_time", base |-> "local_time", kind |-> "time", def |-> "time t0"],
      [name |-> "duration", base |-> "duration", kind |-> "time", def |-> "time t24000"],
      [name |-> "only_for_positive_duration", base |-> "only_for_positive_duration", kind |-> "bool", def |-> "bool false"],
      [name |-> "symmetrical", base |-> "symmetrical", kind |-> "bool", def |-> "bool true"]>>,
   todo |-> {}],
T_translate |-> [cls |-> "Translate", type |-> "translate", version |-> "0.1",
   key |-> <<"t", "r", "a", "n", "s", "l", "a", "t", "e">>,
   params |-> <<[name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0;y=0"]>>,
   todo |-> {}],
T_twirl |-> [cls |-> "Twirl", type |-> "twirl", version |-> "0.1",
   key |-> <<"t", "w", "i", "r", "l">>,
   params |-> <<[name |-> "center", base |-> "center", kind |-> "vector", def |-> "vector xx=0;y=0"],
      [name |-> "radius", base |-> "radius", kind |-> "real", def |-> "real 1"],
      [name |-> "rotations", base |-> "rotations", kind |-> "angle", def |-> "angle 0"],
      [name |-> "distort_inside", base |-> "distort_inside", kind |-> "bool", def |-> "bool true"],
      [name |-> "distort_outside", base |-> "distort_outside", kind |-> "bool", def |-> "bool false"]>>,
   todo |-> {}],
T_warp |-> [cls |-> "Warp", type |-> "warp", version |-> "0.2",
   key |-> <<"w", "a", "r", "p">>,
   params |-> <<[name |-> "src_tl", base |-> "src_tl", kind |-> "vector", def |-> "vector xx=-2;y=2"],
      [name |-> "src_br", base |-> "src_br", kind |-> "vector", def |-> "vector xx=2;y=-2"],
      [name |-> "dest_tl", base |-> "dest_tl", kind |-> "vector", def |-> "vector xx=-1.7999999523;y=2.0999999046"],
      [name |-> "dest_tr", base |-> "dest_tr", kind |-> "vector", def |-> "vector xx=1.7999999523;y=2.0999999046"],
      [name |-> "dest_br", base |-> "dest_br", kind |-> "vector", def |-> "vector xx=2.2000000477;y=-2"],
      [name |-> "dest_bl", base |-> "dest_bl", kind |-> "vector", def |-> "vector xx=-2.2000000477;y=-2"],
      [name |-> "clip", base |-> "clip", kind |-> "bool", def |-> "bool true"],
      [name |-> "interpolation", base |-> "interpolation", kind |-> "integer", def |-> "integer 3"]>>,
   todo |-> {}],
T_xorpattern |-> [cls |-> "Xor_Pattern", type |-> "xor_pattern", version |-> "0.1",
   key |-> <<"x", "o", "r", "p", "a", "t", "t", "e", "r", "n">>,
   params |-> <<[name |-> "z_depth", base |-> "z_depth", kind |-> "real", def |-> "real 0"],
      [name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 1"],
      [name |-> "blend_method", base |-> "blend_method", kind |-> "integer", def |-> "integer 0"],
      [name |-> "origin", base |-> "origin", kind |-> "vector", def |-> "vector xx=0.125;y=0.125"],
      [name |-> "size", base |-> "size", kind |-> "vector", def |-> "vector xx=0.25;y=0.25"]>>,
   todo |-> {}],
T_zoom |-> [cls |-> "Zoom", type |-> "zoom", version |-> "0.1",
   key |-> <<"z", "o", "o", "m">>,
   params |-> <<[name |-> "amount", base |-> "amount", kind |-> "real", def |-> "real 0"],
      [name |-> "center", base |-> "center", kind |-> "vector", def |-> "vector xx=0;y=0"]>>,
   todo |-> {}]
]
====
