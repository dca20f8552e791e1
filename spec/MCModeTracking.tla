--------------------------- MODULE MCModeTracking ---------------------------
EXTENDS ModeTracking
\* two real eigenvalues and a complex pair with no accidental equidistance
Points4 == {<<-3, 0>>, <<0, 0>>, <<1, 2>>, <<1, -2>>}
Points3 == {<<-3, 0>>, <<1, 2>>, <<1, -2>>}
Points5 == {<<-3, 0>>, <<0, 0>>, <<4, 0>>, <<1, 2>>, <<1, -2>>}
Small4 == {<<-2, 0>>, <<0, 1>>, <<1, -1>>, <<5, 0>>}
=============================================================================
