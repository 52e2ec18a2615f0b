------------------------------- MODULE ShapeMC -------------------------------
EXTENDS Shape
DefaultBases == <<2526, 52342>>
=============================================================================
