SPECIFICATION Spec
CONSTANTS MaxStretches = 4
          VocabSize = 12
INVARIANTS Fused ErrorLast ErrorFits WellFormed InOrder DelimsAgree NothingLost PlainText
PROPERTY Terminates
