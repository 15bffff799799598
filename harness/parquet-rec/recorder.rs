// Stand-in for parquet's ArrowWriter: records what it is given instead of encoding it.
// Everything else of the parquet crate is the real one.

/// What one `ArrowWriter` was given.
pub struct Record {
    pub schema: SchemaRef,
    pub properties: WriterProperties,
    pub batches: Vec<RecordBatch>,
    /// rows per flushed row group
    pub row_groups: Vec<usize>,
    pub closed: bool,
}

static RECORDS: Mutex<Vec<Record>> = Mutex::new(Vec::new());

/// Takes everything recorded so far.
pub fn take_records() -> Vec<Record> {
    std::mem::take(&mut *RECORDS.lock().unwrap())
}

pub struct ArrowWriter<W: Write> {
    writer: W,
    arrow_schema: SchemaRef,
    index: usize,
    buffered_rows: usize,
    rows: usize,
    written: usize,
    max_row_group_size: usize,
    finished: bool,
}

impl<W: Write + Send> std::fmt::Debug for ArrowWriter<W> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("ArrowWriter").finish()
    }
}

impl<W: Write + Send> ArrowWriter<W> {
    pub fn try_new(
        writer: W,
        arrow_schema: SchemaRef,
        props: Option<WriterProperties>,
    ) -> Result<Self> {
        let options = ArrowWriterOptions::new().with_properties(props.unwrap_or_default());
        Self::try_new_with_options(writer, arrow_schema, options)
    }

    pub fn try_new_with_options(
        writer: W,
        arrow_schema: SchemaRef,
        options: ArrowWriterOptions,
    ) -> Result<Self> {
        let properties = options.properties;
        let max_row_group_size = properties.max_row_group_size();
        let mut records = RECORDS.lock().unwrap();
        records.push(Record {
            schema: arrow_schema.clone(),
            properties,
            batches: Vec::new(),
            row_groups: Vec::new(),
            closed: false,
        });
        let index = records.len() - 1;
        drop(records);
        let mut this = Self {
            writer,
            arrow_schema,
            index,
            buffered_rows: 0,
            rows: 0,
            written: 0,
            max_row_group_size,
            finished: false,
        };
        this.bytes(b"PAR1")?;
        Ok(this)
    }

    fn bytes(&mut self, b: &[u8]) -> Result<()> {
        self.writer.write_all(b)?;
        self.written += b.len();
        Ok(())
    }

    pub fn flushed_row_groups(&self) -> &[RowGroupMetaData] {
        &[]
    }

    pub fn memory_size(&self) -> usize {
        self.buffered_rows
    }

    pub fn in_progress_size(&self) -> usize {
        self.buffered_rows
    }

    pub fn in_progress_rows(&self) -> usize {
        self.buffered_rows
    }

    pub fn bytes_written(&self) -> usize {
        self.written
    }

    pub fn write(&mut self, batch: &RecordBatch) -> Result<()> {
        if batch.num_rows() == 0 {
            return Ok(());
        }
        if self.finished {
            return Err(ParquetError::General("writer is closed".to_string()));
        }
        if batch.num_columns() != self.arrow_schema.fields().len() {
            return Err(ParquetError::General("wrong number of columns".to_string()));
        }
        if self.buffered_rows + batch.num_rows() > self.max_row_group_size {
            let to_write = self.max_row_group_size - self.buffered_rows;
            let a = batch.slice(0, to_write);
            let b = batch.slice(to_write, batch.num_rows() - to_write);
            self.write(&a)?;
            return self.write(&b);
        }
        RECORDS.lock().unwrap()[self.index].batches.push(batch.clone());
        self.buffered_rows += batch.num_rows();
        self.rows += batch.num_rows();
        if self.buffered_rows >= self.max_row_group_size {
            self.flush()?
        }
        Ok(())
    }

    pub fn flush(&mut self) -> Result<()> {
        if self.buffered_rows == 0 {
            return Ok(());
        }
        RECORDS.lock().unwrap()[self.index].row_groups.push(self.buffered_rows);
        self.buffered_rows = 0;
        self.bytes(b"G")
    }

    pub fn append_key_value_metadata(&mut self, kv_metadata: KeyValue) {
        let mut records = RECORDS.lock().unwrap();
        let r = &mut records[self.index];
        let mut kv = r.properties.key_value_metadata().cloned().unwrap_or_default();
        kv.push(kv_metadata);
        r.properties = WriterProperties::builder()
            .set_compression(r.properties.compression(&crate::schema::types::ColumnPath::new(vec![])))
            .set_max_row_group_size(r.properties.max_row_group_size())
            .set_key_value_metadata(Some(kv))
            .build();
    }

    pub fn inner(&self) -> &W {
        &self.writer
    }

    pub fn inner_mut(&mut self) -> &mut W {
        &mut self.writer
    }

    pub fn into_inner(mut self) -> Result<W> {
        self.finish()?;
        Ok(self.writer)
    }

    pub fn finish(&mut self) -> Result<crate::format::FileMetaData> {
        self.flush()?;
        if self.finished {
            return Err(ParquetError::General("writer is closed".to_string()));
        }
        self.bytes(b"PAR1")?;
        self.writer.flush()?;
        self.finished = true;
        let mut records = RECORDS.lock().unwrap();
        let r = &mut records[self.index];
        r.closed = true;
        Ok(crate::format::FileMetaData::new(
            1,
            Vec::new(),
            self.rows as i64,
            Vec::new(),
            r.properties.key_value_metadata().cloned(),
            None,
            None,
            None,
            None,
        ))
    }

    pub fn close(mut self) -> Result<crate::format::FileMetaData> {
        self.finish()
    }
}

