----------------------------- MODULE KfrRandom ------------------------------
(* The constants of the library's generator.                                  *)
EXTENDS Random
KMul == <<<<253, 67, 3, 0>>, <<253, 67, 0, 0>>, <<253, 67, 3, 0>>, <<205, 13, 1, 0>>>>
KAdd == <<<<195, 158, 38, 0>>, <<195, 158, 158, 0>>, <<195, 158, 209, 0>>, <<1, 0, 0, 0>>>>
KInv == <<<<85, 49, 179, 185>>, <<85, 49, 94, 172>>, <<85, 49, 179, 185>>, <<5, 167, 226, 165>>>>
=============================================================================
