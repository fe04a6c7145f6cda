// Stand-in for the file the project's cmake generates.
#define HUMOTO_COMPILER_SUPPORTS_FUNC_
#define HUMOTO_COMPILER_SUPPORTS_FUNCTION_
#define HUMOTO_DEFAULT_CONFIG_PREFIX "/usr/local/share/humoto/config/"
#define HUMOTO_USE_THREADS_FOR_LOGGING
#define HUMOTO_GIT_COMMIT_INFO "verif"
#define HUMOTO_BUILD_TESTS
#define HUMOTO_BUILD_REGRESSION_TESTS
#define HUMOTO_BRIDGE_config_msgpack
#define HUMOTO_BRIDGE_googletest
#define HUMOTO_BRIDGE_obstacle_avoidance
#define HUMOTO_MODULE_pepper_mpc
#define HUMOTO_MODULE_wpg04
#define HUMOTO_MODULE_buildcheck
