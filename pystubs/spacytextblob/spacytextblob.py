class SpacyTextBlob: pass
