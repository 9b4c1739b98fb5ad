---------------------------- MODULE RiRequests ------------------------------
(* The requests of the RenderMan interface and the shape of their arguments in a  *)
(* RIB stream.                                                                     *)
(*   I int   F number   S string   N string or int (a handle)   B boolean          *)
(*   IA/FA/SA bracketed arrays of any length                                       *)
(*   A<n>  n numbers, bracketed or not      M<n> exactly n numbers, bracketed      *)
(*   Q<n>  like A<n>, but packed arrays are not used                               *)
(*   FILT/ERRF/BASIS/PROC named functions    P a parameter list                    *)
EXTENDS Sequences, Integers

Sig == [
  Declare |-> {<<"DECL">>}, FrameBegin |-> {<<"I">>}, FrameEnd |-> {<<>>}, WorldBegin |-> {<<>>}, WorldEnd |-> {<<>>},
  IfBegin |-> {<<"S">>}, ElseIf |-> {<<"S">>}, Else |-> {<<>>}, IfEnd |-> {<<>>},
  Format |-> {<<"I","I","F">>}, FrameAspectRatio |-> {<<"F">>}, ScreenWindow |-> {<<"A4">>}, CropWindow |-> {<<"A4">>},
  Projection |-> {<<"S","P">>}, Clipping |-> {<<"F","F">>}, ClippingPlane |-> {<<"F","F","F","F","F","F">>},
  DepthOfField |-> {<<"F","F","F">>, <<"NODOF">>}, Shutter |-> {<<"F","F">>}, PixelVariance |-> {<<"F">>}, PixelSamples |-> {<<"F","F">>},
  PixelFilter |-> {<<"FILT","F","F">>}, Exposure |-> {<<"F","F">>}, Imager |-> {<<"S","P">>}, Quantize |-> {<<"S","I","I","I","F">>},
  Display |-> {<<"S","S","S","P">>}, Hider |-> {<<"S","P">>}, ColorSamples |-> {<<"M9","M9">>}, RelativeDetail |-> {<<"F">>}, Option |-> {<<"S","P">>},
  AttributeBegin |-> {<<>>}, AttributeEnd |-> {<<>>}, Color |-> {<<"A3">>}, Opacity |-> {<<"A3">>}, TextureCoordinates |-> {<<"A8">>},
  LightSource |-> {<<"S","N","P">>}, AreaLightSource |-> {<<"S","N","P">>}, Illuminate |-> {<<"N","B">>},
  Surface |-> {<<"S","P">>}, Displacement |-> {<<"S","P">>}, Atmosphere |-> {<<"S","P">>}, Interior |-> {<<"S","P">>}, Exterior |-> {<<"S","P">>},
  ShaderLayer |-> {<<"S","S","S","P">>}, ConnectShaderLayers |-> {<<"S","S","S","S","S">>},
  ShadingRate |-> {<<"F">>}, ShadingInterpolation |-> {<<"S">>}, Matte |-> {<<"B">>}, Bound |-> {<<"A6">>}, Detail |-> {<<"A6">>}, DetailRange |-> {<<"A4">>},
  GeometricApproximation |-> {<<"S","F">>}, Orientation |-> {<<"S">>}, ReverseOrientation |-> {<<>>}, Sides |-> {<<"I">>},
  Identity |-> {<<>>}, Transform |-> {<<"M16">>}, ConcatTransform |-> {<<"M16">>}, Perspective |-> {<<"F">>}, Translate |-> {<<"F","F","F">>},
  Rotate |-> {<<"F","F","F","F">>}, Scale |-> {<<"F","F","F">>}, Skew |-> {<<"A7">>}, CoordinateSystem |-> {<<"S">>}, CoordSysTransform |-> {<<"S">>},
  TransformBegin |-> {<<>>}, TransformEnd |-> {<<>>}, Resource |-> {<<"S","S","P">>}, ResourceBegin |-> {<<>>}, ResourceEnd |-> {<<>>}, Attribute |-> {<<"S","P">>},
  Polygon |-> {<<"P">>}, GeneralPolygon |-> {<<"IA","P">>}, PointsPolygons |-> {<<"IA","IA","P">>}, PointsGeneralPolygons |-> {<<"IA","IA","IA","P">>},
  Basis |-> {<<"BASIS","I","BASIS","I">>}, Patch |-> {<<"S","P">>}, PatchMesh |-> {<<"S","I","S","I","S","P">>},
  NuPatch |-> {<<"I","I","FA","F","F","I","I","FA","F","F","P">>}, TrimCurve |-> {<<"IA","IA","FA","FA","FA","IA","FA","FA","FA">>},
  SubdivisionMesh |-> {<<"S","IA","IA","P">>, <<"S","IA","IA","SA","IA","IA","FA","P">>},
  Sphere |-> {<<"A4","P">>}, Cone |-> {<<"A3","P">>}, Cylinder |-> {<<"A4","P">>}, Hyperboloid |-> {<<"A7","P">>}, Paraboloid |-> {<<"A4","P">>}, Disk |-> {<<"A3","P">>}, Torus |-> {<<"A5","P">>},
  Points |-> {<<"P">>}, Curves |-> {<<"S","IA","S","P">>}, Blobby |-> {<<"I","IA","FA","SA","P">>}, Procedural |-> {<<"PROC">>}, Geometry |-> {<<"S","P">>},
  SolidBegin |-> {<<"S">>}, SolidEnd |-> {<<>>}, ObjectBegin |-> {<<"N">>}, ObjectEnd |-> {<<>>}, ObjectInstance |-> {<<"N">>}, MotionBegin |-> {<<"FA">>}, MotionEnd |-> {<<>>},
  MakeTexture |-> {<<"S","S","S","S","FILT","F","F","P">>}, MakeLatLongEnvironment |-> {<<"S","S","FILT","F","F","P">>},
  MakeCubeFaceEnvironment |-> {<<"S","S","S","S","S","S","S","F","FILT","F","F","P">>}, MakeShadow |-> {<<"S","S","P">>}, MakeOcclusion |-> {<<"SA","S","P">>},
  ErrorHandler |-> {<<"ERRF">>}, ReadArchive |-> {<<"S","P">>}, ArchiveBegin |-> {<<"S","P">>}, ArchiveEnd |-> {<<>>}
]
AllNames == DOMAIN Sig
FixedCount == [ A3 |-> 3, A4 |-> 4, A5 |-> 5, A6 |-> 6, A7 |-> 7, A8 |-> 8, M9 |-> 9, M16 |-> 16 ]
MustBracket == {"M9", "M16"}

(* Parameter types: storage kind and number of values per element. *)
TySize == [ float |-> 1, point |-> 3, vector |-> 3, normal |-> 3, color |-> 3, hpoint |-> 4, matrix |-> 16, string |-> 1, int |-> 1 ]
TyKind == [ t \in DOMAIN TySize |-> IF t = "string" THEN "S" ELSE IF t = "int" THEN "I" ELSE "F" ]
(* [c class, t type, n array size] *)
Ty(c, t, n) == [c |-> c, t |-> t, n |-> n]
(* names every renderer knows without declaration *)
StdDict == [ P |-> Ty("vertex", "point", 1), Kd |-> Ty("uniform", "float", 1), Cs |-> Ty("varying", "color", 1), N |-> Ty("varying", "normal", 1), Pw |-> Ty("vertex", "hpoint", 1),
             fov |-> Ty("uniform", "float", 1), texturename |-> Ty("uniform", "string", 1), lightcolor |-> Ty("uniform", "color", 1) ]
UserNames == {"da", "db", "dc", "longer_name:with-punct.1"}
UserTypes == { Ty("uniform", "float", 1), Ty("varying", "float", 2), Ty("vertex", "point", 1), Ty("uniform", "string", 1), Ty("uniform", "string", 2), Ty("constant", "int", 1), Ty("uniform", "int", 3),
               Ty("facevarying", "color", 1), Ty("uniform", "matrix", 1), Ty("varying", "hpoint", 1), Ty("vertex", "vector", 1), Ty("facevertex", "normal", 2), Ty("constant", "float", 16) }
NumTxt(n) == CASE n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] n = 16 -> "16"
Canon(ty) == ty.c \o " " \o ty.t \o "[" \o NumTxt(ty.n) \o "]"
(* the ways a declaration may be spelled *)
Spellings(ty) == LET a == IF ty.n = 1 THEN {"", "[1]"} ELSE {"[" \o NumTxt(ty.n) \o "]"}
                     cs == IF ty.c = "uniform" THEN {"", "uniform "} ELSE {ty.c \o " ", "  " \o ty.c \o "  "}
                     ts == IF ty.t = "int" THEN {"int", "integer"} ELSE {ty.t}
                 IN { c \o t \o x : c \in cs, t \in ts, x \in a }
=============================================================================
