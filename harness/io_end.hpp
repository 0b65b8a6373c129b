#undef ostream
#undef ofstream
#undef fstream
#undef ostringstream
#undef stringstream
#undef cout
#undef cerr
#undef clog
#undef endl
#undef flush
#undef localtime
#undef gmtime
#undef asctime
#undef ctime
#undef time
#undef strftime
