SPECIFICATION Spec
CONSTANTS MaxStretches = 4
          VocabSize = 9
INVARIANTS Fused ErrorLast ErrorFits WellFormed InOrder DelimsAgree NothingLost PlainText
PROPERTY Terminates
