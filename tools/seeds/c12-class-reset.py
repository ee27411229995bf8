ID = 'c12-class-reset'
PROPERTY = 'C12'
NEEDS = 'a regular expression whose class contains a ['
BREAKS = 'a [ inside a character class is taken for a nested class'
EDITS = [('scanner/scanner.rs', "'[' => in_class = true,", "'[' => in_class = !in_class,")]
DEMO = 'ok("/[[/]/"); ok("/[/]/");'
