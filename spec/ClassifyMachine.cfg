SPECIFICATION Spec
INVARIANTS ExchangedFiles TextOnlyIfAllText NotFoundIffNothing ChangeIffBoth
