// Failing verifications on the line PLACE_LINE of the file PLACE_FILE; included several times.
template<> struct Place<PLACE_NUMBER> {
    static int line() { return PLACE_LINE; }
    static const char *file() { return PLACE_FILE; }
    static void run(int form, Mock<IPlaces> &m, Mock<IPlaces> &n, std::string &func) {
        func = __func__;
#line PLACE_LINE PLACE_FILE
        switch (form) { case 0: Verify(Method(m, f)).Exactly(77); break; case 1: VerifyNoOtherInvocations(m, n); break; case 2: Using(m).Verify(Method(m, f) + Method(n, f) * 3).AtLeast(55); break; default: VerifyNoOtherInvocations(Method(m, f)); }
    }
};
#undef PLACE_NUMBER
#undef PLACE_LINE
#undef PLACE_FILE
