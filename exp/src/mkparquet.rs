//! mkparquet <description> <output>: writes the table a description holds as parquet, the way the benchmark's generator lays it out.
//! Lines: "group <rows per row group>", "dict <0|1>", "text <name> <rows>", "col <name> <scale> <unscaled value>...".
use arrow::array::{ArrayRef, Decimal128Array, RecordBatch, StringArray};
use parquet::{arrow::ArrowWriter, basic::Compression, file::properties::WriterProperties};
use std::sync::Arc;

fn main() -> anyhow::Result<()> {
    let a: Vec<String> = std::env::args().collect();
    let (mut group, mut dict, mut snappy) = (1 << 20, true, false);
    let mut cols: Vec<(String, ArrayRef)> = vec![];
    for l in std::fs::read_to_string(&a[1])?.lines() {
        let mut w = l.split(' ');
        match w.next() {
            Some("group") => group = w.next().unwrap_or("1").parse()?,
            Some("dict") => dict = w.next() == Some("1"),
            Some("snappy") => snappy = w.next() == Some("1"),
            Some("text") => {
                let (name, n) = (w.next().unwrap_or(""), w.next().unwrap_or("0").parse::<usize>()?);
                cols.push((name.into(), Arc::new(StringArray::from((0..n).map(|i| ["N", "A", "R"][i % 3]).collect::<Vec<_>>()))));
            }
            Some("col") => {
                let (name, scale) = (w.next().unwrap_or("").to_string(), w.next().unwrap_or("0").parse::<i8>()?);
                let v = w.map(|x| x.parse::<i128>()).collect::<Result<Vec<_>, _>>()?;
                cols.push((name, Arc::new(Decimal128Array::from(v).with_precision_and_scale(15, scale)?)));
            }
            _ => (),
        }
    }
    let batch = RecordBatch::try_from_iter(cols)?;
    let p = WriterProperties::builder()
        .set_max_row_group_size(group)
        .set_dictionary_enabled(dict)
        .set_compression(if snappy { Compression::SNAPPY } else { Compression::UNCOMPRESSED })
        .set_data_page_row_count_limit(700)
        .set_write_batch_size(64)
        .build();
    let mut w = ArrowWriter::try_new(std::fs::File::create(&a[2])?, batch.schema(), Some(p))?;
    w.write(&batch)?;
    w.close()?;
    Ok(())
}
