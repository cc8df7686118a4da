/*
 * This file was generated by qdbusxml2cpp
 */
// Do not warn for files generated by qdbusxml2cpp
#include <QtDBus/QtDBus>
#include <QtDBus>

