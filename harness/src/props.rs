//! The table of properties decided by generated cases.
use crate::engine::Prop;
use crate::{cli, compare, docs, helper, hist, ingest, keep, pm, pt, scripts, snake};

macro_rules! prop {
    ($id:literal, $m:ident :: $g:ident, $j:ident, $quick:expr, $rule:expr) => {
        Prop { id: $id, gen: $m::$g, judge: $m::$j, quick: $quick, rule: $rule }
    };
}

pub static PROPS: &[Prop] = &[
    prop!("C01", pt::c01_gen, c01_judge, 4000, "random schemas and options, converted repeatedly and with every object's members and every required list re-ordered; non-trivial: an output was produced and some object had several members"),
    prop!("C02", hist::gen, judge, 400, "a pool of schemas with different options, near twins and failing conversions; each operation once in a fresh process, then a history of them on 1 to 8 threads in one process (calls and returns timed), every result compared; non-trivial: the pool has at least three different results"),
    prop!("C03", pm::c03_gen, c03_judge, 60000, "random well-formed schemas (hostile names, null types, empty containers, inert keywords) under cast with random other options, both targets; non-trivial: supported schema with at least one container or odd name"),
    prop!("C05", pm::c05_gen, c05_judge, 60000, "random schemas converted under all three strategies"),
    prop!("C06", pm::c06_gen, c06_judge, 60000, "random schemas with unrepresentable positions, cast output against drop output"),
    prop!("C07", pm::c07_gen, c07_judge, 60000, "random schemas compared with the reference mapping of types"),
    prop!("C08", pm::c08_gen, c08_judge, 60000, "random schemas with required lists and null types compared with the reference nullability"),
    prop!("C09", pt::c09_gen, c09_judge, 60000, "random schemas with and without force-nullable"),
    prop!("C10", pm::c10_gen, c10_judge, 40000, "random schemas with hostile property names compared with the reference naming"),
    prop!("C11", pt::c11_gen, c11_judge, 25000, "random schemas, case normalisation against renaming by hand"),
    prop!("C12", snake::c12_gen, c12_judge, 25000, "batches of strings: consecutive strings over a small alphabet, identifiers, ASCII, Unicode, very long ones, real-world mixtures; both feature builds; compared with the boundary rules (ASCII) and the general laws (all); non-trivial: some string changes"),
    prop!("C13", pt::c13_gen, c13_judge, 60000, "random schemas rewritten by an equivalence on alternatives"),
    prop!("C14", pm::c14_gen, c14_judge, 60000, "random alternatives of records, arrays and maps compared with the reference merge"),
    prop!("C15", pm::c15_gen, c15_judge, 60000, "random schemas and options, Avro outputs through a strict reader"),
    prop!("C16", pm::c16_gen, c16_judge, 60000, "random schemas and options, BigQuery outputs through a strict reader"),
    prop!("C17", pt::c17_gen, c17_judge, 60000, "random schemas, Avro output against BigQuery output"),
    prop!("C18", docs::c18_gen, c18_judge, 30000, "random schemas with documents valid for them, encoded with both outputs"),
    prop!("C19", pm::c19_gen, c19_judge, 60000, "random tuples in random positions compared with the reference rules"),
    prop!("C20", pm::c20_gen, c20_judge, 60000, "random nestings of arrays, maps and records compared with the reference shapes"),
    prop!("C21", pm::c21_gen, c21_judge, 40000, "random schemas with path patterns in the options or the schema"),
    prop!("C22", pm::c22_gen, c22_judge, 60000, "random schemas with titles and descriptions"),
    prop!("C23", pt::c23_gen, c23_judge, 40000, "random schemas alone and embedded in random contexts"),
    prop!("C24", pt::c24_gen, c24_judge, 60000, "random schemas with and without added inert keywords"),
    prop!("C25", cli::c25_gen, c25_judge, 3000, "random schemas in random spellings through the real program with random flag spellings and order, input channels, chunk sizes and log levels; standard output compared byte by byte with the library's result; non-trivial: the library accepts the schema"),
    prop!("C26", cli::c26_gen, c26_judge, 1500, "the real program on inputs truncated, corrupted, followed by more data, too deep, missing, refused, or with failing output; non-trivial: the reference reader or the library rejects the input, or the output fails"),
    prop!("C27", pt::c27_gen, c27_judge, 60000, "random well-formed schemas with one malformed part injected"),
    prop!("C28", snake::c28_gen, c28_judge, 2000, "random schemas and strings with hostile names through the native-regex build under AddressSanitizer on 8 threads, and compared with the default build where names are ASCII; every case is non-trivial"),
    prop!("C29", pm::c29_gen, c29_judge, 40000, "random schemas with renames, omissions and casts, log records captured"),
    prop!("C30", pm::c30_gen, c30_judge, 40000, "random schemas with many columns, order of emission"),
    prop!("C31", pt::c31_gen, c31_judge, 15000, "random schemas evolved by additions and refinements"),
    prop!("C32", helper::c32_gen, c32_judge, 2500, "random schemas with documents valid for them through the real helper script as a process on the real Avro output; every datum it appends compared with the document and the schema; non-trivial: some scalar was placed"),
    prop!("C33", scripts::c33_gen, c33_judge, 20000, "options written as JSON in random order, with options left out, unknown entries and values of the wrong type, read into Context and used for conversions; compared with the same options set in code; non-trivial: the options change the outcome, or are malformed"),
    prop!("C34", scripts::c34_gen, c34_judge, 500, "random trees of schema files (some refused, some no schemas) through the real generation and validation scripts as processes, with stale output folders and random flags; files, counts and reports compared with the library; non-trivial: some schema converts"),
    prop!("C35", scripts::c35_gen, c35_judge, 500, "random sets of document files, some broken at some line, through the real data script and helper as processes; files left, their content and the report compared with the documents; non-trivial: some set is complete or there are several"),
    prop!("C36", ingest::c36_gen, c36_judge, 300, "random sets of data files with names that contain one another, tables that exist, refused loads and options, through the real load script as a process with the cloud commands as stand-ins that record their calls; uploads, loads and counts compared with the files; every case is non-trivial"),
    prop!("C37", ingest::c37_gen, c37_judge, 600, "random sample objects (several per document type, without schema, with invalid and broken documents) through the real download script as a process with a stand-in for the storage; files and reports compared with the documents that fit; non-trivial: some document fits"),
    prop!("C38", compare::c38_gen, c38_judge, 240, "random schema archives and two versions of a stand-in program in a scratch git repository, through the real comparison scripts as processes, with missing control versions, earlier reports and detached checkouts; reports, checkout and files left compared with what the two versions say; non-trivial: some schema differs"),
    prop!("C39", keep::c39_gen, c39_judge, 240, "pools of conversions (accepted and refused, all options) and names, repeated in one process on 1 to 4 threads in batches of doubling length; memory, open files and threads measured after each; both feature builds; non-trivial: at least four conversions in the pool"),
    prop!("C40", keep::c40_gen, c40_judge, 600, "random schemas through the real program under a library that records its requests to the system and refuses those that would change anything; then again with other variables, directories and dates and on a terminal, standard output and status compared; non-trivial: the schema converts"),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
