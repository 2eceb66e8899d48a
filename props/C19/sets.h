// node sets: name, fixed direction (-1: free, 0: minimum, 1: maximum) per axis, open (from names.py of C16)
SET(Front, -1, -1, 0, 0)
SET(Back, -1, -1, 1, 0)
SET(Left, 0, -1, -1, 0)
SET(Right, 1, -1, -1, 0)
SET(Bottom, -1, 0, -1, 0)
SET(Top, -1, 1, -1, 0)
SET(FrontFace, -1, -1, 0, 1)
SET(BackFace, -1, -1, 1, 1)
SET(LeftFace, 0, -1, -1, 1)
SET(RightFace, 1, -1, -1, 1)
SET(BottomFace, -1, 0, -1, 1)
SET(TopFace, -1, 1, -1, 1)
SET(FrontLeftEdge, 0, -1, 0, 0)
SET(FrontLeftOpenEdge, 0, -1, 0, 1)
SET(FrontRightEdge, 1, -1, 0, 0)
SET(FrontRightOpenEdge, 1, -1, 0, 1)
SET(FrontBottomEdge, -1, 0, 0, 0)
SET(FrontBottomOpenEdge, -1, 0, 0, 1)
SET(FrontTopEdge, -1, 1, 0, 0)
SET(FrontTopOpenEdge, -1, 1, 0, 1)
SET(BackLeftEdge, 0, -1, 1, 0)
SET(BackLeftOpenEdge, 0, -1, 1, 1)
SET(BackRightEdge, 1, -1, 1, 0)
SET(BackRightOpenEdge, 1, -1, 1, 1)
SET(BackBottomEdge, -1, 0, 1, 0)
SET(BackBottomOpenEdge, -1, 0, 1, 1)
SET(BackTopEdge, -1, 1, 1, 0)
SET(BackTopOpenEdge, -1, 1, 1, 1)
SET(LeftFrontEdge, 0, -1, 0, 0)
SET(LeftFrontOpenEdge, 0, -1, 0, 1)
SET(LeftBackEdge, 0, -1, 1, 0)
SET(LeftBackOpenEdge, 0, -1, 1, 1)
SET(LeftBottomEdge, 0, 0, -1, 0)
SET(LeftBottomOpenEdge, 0, 0, -1, 1)
SET(LeftTopEdge, 0, 1, -1, 0)
SET(LeftTopOpenEdge, 0, 1, -1, 1)
SET(RightFrontEdge, 1, -1, 0, 0)
SET(RightFrontOpenEdge, 1, -1, 0, 1)
SET(RightBackEdge, 1, -1, 1, 0)
SET(RightBackOpenEdge, 1, -1, 1, 1)
SET(RightBottomEdge, 1, 0, -1, 0)
SET(RightBottomOpenEdge, 1, 0, -1, 1)
SET(RightTopEdge, 1, 1, -1, 0)
SET(RightTopOpenEdge, 1, 1, -1, 1)
SET(BottomFrontEdge, -1, 0, 0, 0)
SET(BottomFrontOpenEdge, -1, 0, 0, 1)
SET(BottomBackEdge, -1, 0, 1, 0)
SET(BottomBackOpenEdge, -1, 0, 1, 1)
SET(BottomLeftEdge, 0, 0, -1, 0)
SET(BottomLeftOpenEdge, 0, 0, -1, 1)
SET(BottomRightEdge, 1, 0, -1, 0)
SET(BottomRightOpenEdge, 1, 0, -1, 1)
SET(TopFrontEdge, -1, 1, 0, 0)
SET(TopFrontOpenEdge, -1, 1, 0, 1)
SET(TopBackEdge, -1, 1, 1, 0)
SET(TopBackOpenEdge, -1, 1, 1, 1)
SET(TopLeftEdge, 0, 1, -1, 0)
SET(TopLeftOpenEdge, 0, 1, -1, 1)
SET(TopRightEdge, 1, 1, -1, 0)
SET(TopRightOpenEdge, 1, 1, -1, 1)
CORNER(FrontLeftBottomCorner, 0, 0, 0)
CORNER(FrontLeftTopCorner, 0, 1, 0)
CORNER(FrontRightBottomCorner, 1, 0, 0)
CORNER(FrontRightTopCorner, 1, 1, 0)
CORNER(FrontBottomLeftCorner, 0, 0, 0)
CORNER(FrontBottomRightCorner, 1, 0, 0)
CORNER(FrontTopLeftCorner, 0, 1, 0)
CORNER(FrontTopRightCorner, 1, 1, 0)
CORNER(BackLeftBottomCorner, 0, 0, 1)
CORNER(BackLeftTopCorner, 0, 1, 1)
CORNER(BackRightBottomCorner, 1, 0, 1)
CORNER(BackRightTopCorner, 1, 1, 1)
CORNER(BackBottomLeftCorner, 0, 0, 1)
CORNER(BackBottomRightCorner, 1, 0, 1)
CORNER(BackTopLeftCorner, 0, 1, 1)
CORNER(BackTopRightCorner, 1, 1, 1)
CORNER(LeftFrontBottomCorner, 0, 0, 0)
CORNER(LeftFrontTopCorner, 0, 1, 0)
CORNER(LeftBackBottomCorner, 0, 0, 1)
CORNER(LeftBackTopCorner, 0, 1, 1)
CORNER(LeftBottomFrontCorner, 0, 0, 0)
CORNER(LeftBottomBackCorner, 0, 0, 1)
CORNER(LeftTopFrontCorner, 0, 1, 0)
CORNER(LeftTopBackCorner, 0, 1, 1)
CORNER(RightFrontBottomCorner, 1, 0, 0)
CORNER(RightFrontTopCorner, 1, 1, 0)
CORNER(RightBackBottomCorner, 1, 0, 1)
CORNER(RightBackTopCorner, 1, 1, 1)
CORNER(RightBottomFrontCorner, 1, 0, 0)
CORNER(RightBottomBackCorner, 1, 0, 1)
CORNER(RightTopFrontCorner, 1, 1, 0)
CORNER(RightTopBackCorner, 1, 1, 1)
CORNER(BottomFrontLeftCorner, 0, 0, 0)
CORNER(BottomFrontRightCorner, 1, 0, 0)
CORNER(BottomBackLeftCorner, 0, 0, 1)
CORNER(BottomBackRightCorner, 1, 0, 1)
CORNER(BottomLeftFrontCorner, 0, 0, 0)
CORNER(BottomLeftBackCorner, 0, 0, 1)
CORNER(BottomRightFrontCorner, 1, 0, 0)
CORNER(BottomRightBackCorner, 1, 0, 1)
CORNER(TopFrontLeftCorner, 0, 1, 0)
CORNER(TopFrontRightCorner, 1, 1, 0)
CORNER(TopBackLeftCorner, 0, 1, 1)
CORNER(TopBackRightCorner, 1, 1, 1)
CORNER(TopLeftFrontCorner, 0, 1, 0)
CORNER(TopLeftBackCorner, 0, 1, 1)
CORNER(TopRightFrontCorner, 1, 1, 0)
CORNER(TopRightBackCorner, 1, 1, 1)
