for _s in ["set_fftwpp_maxthreads", "get_fftwpp_maxthreads", "fftwpp_create_conv1d", "fftwpp_create_hconv1d",
           "fftwpp_create_conv2d", "fftwpp_create_hconv2d", "fftwpp_create_conv3d", "fftwpp_create_hconv3d",
           "fftwpp_HermitianSymmetrizeX", "fftwpp_HermitianSymmetrizeXY"]:
    known.append({"property": "C15", "key": "width:f90:" + _s,
                  "what": "wrappers/fftwpp.f90 passes 32-bit integer(c_int) where %s takes or returns size_t; "
                          "not repaired because every Fortran caller (wrappers/fexample.f90 among them) declares c_int variables" % _s})
