"""Stand-in for the avro package, which is not installed here: only what the
sample-data helper uses. Schemas keep the attributes of the real classes."""
