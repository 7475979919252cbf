// Executable contracts of the text user interface: access to the table of a build
