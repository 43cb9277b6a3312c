---------------------------- MODULE PluginsTrace ----------------------------
EXTENDS Plugins, SeqTrace
=============================================================================
