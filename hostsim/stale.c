int value(void) { return 7; }
int main(void) { return 3; }
