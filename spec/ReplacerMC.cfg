SPECIFICATION Spec
CONSTANTS MaxLines = 4
          EmitLines = 3
INVARIANTS NestingRefused TwiceIsOnce StillGood AcceptsItself NothingNamedNothingDone OutsideStays MarksStay
