#define SETS2(X) \
    X(BottomEdge) \
    X(BottomOpenEdge) \
    X(TopEdge) \
    X(TopOpenEdge) \
    X(LeftEdge) \
    X(LeftOpenEdge) \
    X(RightEdge) \
    X(RightOpenEdge)
#define CORNERS2(X) \
    X(BottomLeftCorner) \
    X(BottomRightCorner) \
    X(TopLeftCorner) \
    X(TopRightCorner) \
    X(LeftBottomCorner) \
    X(LeftTopCorner) \
    X(RightBottomCorner) \
    X(RightTopCorner)
#define SETS3(X) \
    X(Front) \
    X(Back) \
    X(Left) \
    X(Right) \
    X(Bottom) \
    X(Top) \
    X(FrontFace) \
    X(BackFace) \
    X(LeftFace) \
    X(RightFace) \
    X(BottomFace) \
    X(TopFace) \
    X(FrontLeftEdge) \
    X(FrontLeftOpenEdge) \
    X(FrontRightEdge) \
    X(FrontRightOpenEdge) \
    X(FrontBottomEdge) \
    X(FrontBottomOpenEdge) \
    X(FrontTopEdge) \
    X(FrontTopOpenEdge) \
    X(BackLeftEdge) \
    X(BackLeftOpenEdge) \
    X(BackRightEdge) \
    X(BackRightOpenEdge) \
    X(BackBottomEdge) \
    X(BackBottomOpenEdge) \
    X(BackTopEdge) \
    X(BackTopOpenEdge) \
    X(LeftFrontEdge) \
    X(LeftFrontOpenEdge) \
    X(LeftBackEdge) \
    X(LeftBackOpenEdge) \
    X(LeftBottomEdge) \
    X(LeftBottomOpenEdge) \
    X(LeftTopEdge) \
    X(LeftTopOpenEdge) \
    X(RightFrontEdge) \
    X(RightFrontOpenEdge) \
    X(RightBackEdge) \
    X(RightBackOpenEdge) \
    X(RightBottomEdge) \
    X(RightBottomOpenEdge) \
    X(RightTopEdge) \
    X(RightTopOpenEdge) \
    X(BottomFrontEdge) \
    X(BottomFrontOpenEdge) \
    X(BottomBackEdge) \
    X(BottomBackOpenEdge) \
    X(BottomLeftEdge) \
    X(BottomLeftOpenEdge) \
    X(BottomRightEdge) \
    X(BottomRightOpenEdge) \
    X(TopFrontEdge) \
    X(TopFrontOpenEdge) \
    X(TopBackEdge) \
    X(TopBackOpenEdge) \
    X(TopLeftEdge) \
    X(TopLeftOpenEdge) \
    X(TopRightEdge) \
    X(TopRightOpenEdge)
#define CORNERS3(X) \
    X(FrontLeftBottomCorner) \
    X(FrontLeftTopCorner) \
    X(FrontRightBottomCorner) \
    X(FrontRightTopCorner) \
    X(FrontBottomLeftCorner) \
    X(FrontBottomRightCorner) \
    X(FrontTopLeftCorner) \
    X(FrontTopRightCorner) \
    X(BackLeftBottomCorner) \
    X(BackLeftTopCorner) \
    X(BackRightBottomCorner) \
    X(BackRightTopCorner) \
    X(BackBottomLeftCorner) \
    X(BackBottomRightCorner) \
    X(BackTopLeftCorner) \
    X(BackTopRightCorner) \
    X(LeftFrontBottomCorner) \
    X(LeftFrontTopCorner) \
    X(LeftBackBottomCorner) \
    X(LeftBackTopCorner) \
    X(LeftBottomFrontCorner) \
    X(LeftBottomBackCorner) \
    X(LeftTopFrontCorner) \
    X(LeftTopBackCorner) \
    X(RightFrontBottomCorner) \
    X(RightFrontTopCorner) \
    X(RightBackBottomCorner) \
    X(RightBackTopCorner) \
    X(RightBottomFrontCorner) \
    X(RightBottomBackCorner) \
    X(RightTopFrontCorner) \
    X(RightTopBackCorner) \
    X(BottomFrontLeftCorner) \
    X(BottomFrontRightCorner) \
    X(BottomBackLeftCorner) \
    X(BottomBackRightCorner) \
    X(BottomLeftFrontCorner) \
    X(BottomLeftBackCorner) \
    X(BottomRightFrontCorner) \
    X(BottomRightBackCorner) \
    X(TopFrontLeftCorner) \
    X(TopFrontRightCorner) \
    X(TopBackLeftCorner) \
    X(TopBackRightCorner) \
    X(TopLeftFrontCorner) \
    X(TopLeftBackCorner) \
    X(TopRightFrontCorner) \
    X(TopRightBackCorner)
