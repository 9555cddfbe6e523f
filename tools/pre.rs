#![allow(unused_imports, unused_must_use)]
use tsfile_writer::writer::compression::CompressionType::*;
use tsfile_writer::writer::encoding::TSEncoding::*;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::{IoTDBValue::*, Schema, TSDataType};
