---------------------------- MODULE SessionsGen ----------------------------
(* Sessions with the numbers of results taken from the environment (JSON list). *)
EXTENDS Sessions, IOUtils
SizeDef == CASE IOEnv.SIZES = "[2,1]" -> <<2, 1>>
             [] IOEnv.SIZES = "[2, 3]" -> <<2, 3>>
             [] IOEnv.SIZES = "[3, 2]" -> <<3, 2>>
             [] IOEnv.SIZES = "[4, 4, 2]" -> <<4, 4, 2>>
             [] OTHER -> <<1>>
=============================================================================
