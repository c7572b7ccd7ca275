from tensorflow import TFRecordDataset  # noqa: F401
